"""Value-graph terms: hash-consed expressions in a polynomial normal form.

The abstract interpreter (interp.py) computes, for every program point, a *term* describing the value as a function of
the analysed function's inputs (gated SSA / global value numbering).  Smart constructors keep terms in a normal form
(sums of products with rational coefficients, merged exponentials, logarithms of products split, comparisons as sign
tests).  Two terms are equal when their normal forms coincide or, failing that, when they agree under *random
interpretation* (Gulwani & Necula): every leaf and every uninterpreted operator gets a random value that depends only
on the fingerprints of its arguments.  Terms are never obtained by executing the analysed code.
"""
from fractions import Fraction
from math import gcd
import math
import hashlib

_TAB = {}
META = {}          # sym term -> dict(kind=, rank=, cls=, ...)


class T:
    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return show(self)


def mk(op, *args):
    k = (op,) + args
    t = _TAB.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_TAB)
        _TAB[k] = t
    return t


def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if x != x:
            return mk("nan")
        if x in (float("inf"), float("-inf")):
            return INF if x > 0 else neg(INF)
        x = Fraction(repr(x))
    return mk("num", Fraction(x))


def const(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, float, Fraction)):
        return num(x)
    return mk("const", type(x).__name__, x)


def sym(name, **meta):
    t = mk("sym", name)
    if meta:
        META.setdefault(t, {}).update(meta)
    return t


def opaque(reason, *args):
    return mk("opaque", reason, *[a for a in args if isinstance(a, T)])


TRUE = mk("true")
FALSE = mk("false")
NONE = mk("const", "NoneType", None)
INF = mk("inf")
PI = mk("sym", "pi")
META[PI] = {"kind": "num", "rank": 0}
ZERO = num(0)
ONE = num(1)
EMPTY = mk("empty")
ONE_M = ()           # monomial 1


def is_num(t):
    return t.op == "num"


def numval(t):
    return t.args[0] if t.op == "num" else None


def is_const_str(t):
    return t.op == "const" and t.args[0] == "str"


# ------------------------------------------------------------------ polynomials
def _akey(a):
    return a.id


def poly_of(t):
    if t.op == "num":
        return {ONE_M: t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args)
    if t is TRUE:
        return {ONE_M: Fraction(1)}
    if t is FALSE:
        return {}
    return {((t, Fraction(1)),): Fraction(1)}


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ONE_M:
            return mk("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op not in ("num", "poly"):
            return m[0][0]
    return mk("poly", *sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))


def _mono_mul(m1, m2):
    """product of two monomials -> (coef, monomial)"""
    if not m1:
        return Fraction(1), m2
    if not m2:
        return Fraction(1), m1
    d = {}
    ex = None
    for m in (m1, m2):
        for a, e in m:
            if a.op == "exp":
                x = scale(a.args[0], e)
                ex = x if ex is None else add(ex, x)
            else:
                d[a] = d.get(a, 0) + e
    extra = None
    if ex is not None:
        r = exp(ex)
        rp = poly_of(r)
        if len(rp) == 1:
            (rm, rc), = rp.items()
            for a, e in rm:
                if a.op == "exp":
                    d[a] = d.get(a, 0) + e
                else:
                    d[a] = d.get(a, 0) + e
            extra = rc
        else:                       # exp(log(poly)) produced a sum: keep as atom
            d[r] = d.get(r, 0) + 1
    coef = extra if extra is not None else Fraction(1)
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == "num" and e.denominator == 1:
            coef *= a.args[0] ** int(e)
            continue
        if a.op == "num" and (e > 1 or e < 0):
            k = e.numerator // e.denominator
            coef *= a.args[0] ** int(k)
            e = e - k
            if e == 0:
                continue
        out.append((a, e))
    return coef, tuple(sorted(out, key=lambda ae: ae[0].id))


def add(*ts):
    d = {}
    for t in ts:
        for m, c in poly_of(t).items():
            d[m] = d.get(m, 0) + c
    return from_poly(d)


def scale(t, c):
    c = Fraction(c)
    if c == 0:
        return ZERO
    return from_poly({m: v * c for m, v in poly_of(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


MAX_TERMS = 400


def mul(*ts):
    cur = {ONE_M: Fraction(1)}
    for t in ts:
        p = poly_of(t)
        if len(cur) * max(len(p), 1) > MAX_TERMS:
            # keep factored: treat as atoms
            a = from_poly(cur)
            cur = {}
            c, m = _mono_mul(((a, Fraction(1)),), ((t, Fraction(1)),))
            cur[m] = c
            continue
        nxt = {}
        needs_expand = []
        for m1, c1 in cur.items():
            for m2, c2 in p.items():
                c, m = _mono_mul(m1, m2)
                # a poly atom raised to a positive integer must be expanded back
                pe = [(a, e) for a, e in m if a.op == "poly" and e.denominator == 1 and e > 0]
                if pe:
                    needs_expand.append((c * c1 * c2, m))
                    continue
                nxt[m] = nxt.get(m, 0) + c * c1 * c2
        for c, m in needs_expand:
            rest = tuple((a, e) for a, e in m if not (a.op == "poly" and e.denominator == 1 and e > 0))
            acc = {rest: c}
            for a, e in m:
                if a.op == "poly" and e.denominator == 1 and e > 0:
                    for _ in range(int(e)):
                        acc = poly_of(mul(from_poly(acc), a))
            for mm, cc in acc.items():
                nxt[mm] = nxt.get(mm, 0) + cc
        cur = nxt
    return from_poly(cur)


def _content(p):
    """p: dict with >= 2 terms -> (positive rational content, common monomial, primitive poly dict)"""
    g_n, g_d = 0, 1
    for c in p.values():
        g_n = gcd(g_n, abs(c.numerator))
        g_d = g_d * c.denominator // gcd(g_d, c.denominator)
    cont = Fraction(g_n, g_d)
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = {a: e for a, e in d.items() if a.op != "exp"}
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d and (d[a] > 0) == (e > 0)}
    common = {a: e for a, e in (common or {}).items() if a.op != "poly"}
    cm = tuple(sorted(common.items(), key=lambda ae: ae[0].id))
    inv = tuple((a, -e) for a, e in cm)
    q = {}
    for m, c in p.items():
        cc, mm = _mono_mul(m, inv) if inv else (Fraction(1), m)
        q[mm] = q.get(mm, 0) + c * cc / cont
    return cont, cm, q


def _num_pow(c, e):
    """c positive rational ** e rational -> poly term"""
    if e.denominator == 1:
        return mk("num", c ** int(e))
    out = ONE
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in _factor(n):
            ee = e * k * s
            i = ee.numerator // ee.denominator
            out = mul(out, mk("num", Fraction(p) ** int(i)))
            r = ee - i
            if r:
                out = mul(out, from_poly({((mk("num", Fraction(p)), r),): Fraction(1)}))
    return out


def _factor(n):
    out = []
    p = 2
    while p * p <= n and p < 5000:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        if k:
            out.append((p, k))
        p += 1
    if n > 1:
        out.append((n, 1))
    return out


def power(b, e):
    if not is_num(e):
        if is_num(b) and b.args[0] == 1:
            return ONE
        return exp(mul(e, log(b)))
    ev = e.args[0]
    if ev == 0:
        return ONE
    if ev == 1:
        return b
    if b.op == "num":
        v = b.args[0]
        if v == 0:
            return ZERO if ev > 0 else opaque("division by zero")
        if v < 0 and ev.denominator != 1:
            return mk("powneg", b, e)
        return _num_pow(v, ev) if v > 0 else mk("num", v ** int(ev))
    if b is INF:
        return INF if ev > 0 else ZERO
    p = poly_of(b)
    if len(p) == 1:
        (m, c), = p.items()
        if c < 0 and ev.denominator != 1:
            return mk("powneg", b, e)
        out = mk("num", c ** int(ev)) if ev.denominator == 1 else _num_pow(c, ev)
        for a, x in m:
            if a.op == "exp":
                out = mul(out, exp(scale(a.args[0], x * ev)))
            elif a.op == "num":
                out = mul(out, _num_pow(a.args[0], x * ev))
            else:
                out = mul(out, from_poly({((a, x * ev),): Fraction(1)}))
        return out
    if ev.denominator == 1 and 0 < ev <= 6 and len(p) ** int(ev) <= MAX_TERMS:
        out = ONE
        for _ in range(int(ev)):
            out = mul(out, b)
        return out
    cont, cm, q = _content(p)
    lead = sorted(q.items(), key=lambda mc: tuple((a.id, x) for a, x in mc[0]))[-1][1]
    sgn = 1
    if lead < 0 and ev.denominator == 1:
        q = {m: -c for m, c in q.items()}
        sgn = -1 if int(ev) % 2 else 1
    qa = from_poly(q)
    out = from_poly({((qa, ev),): Fraction(sgn)})
    if cont != 1:
        out = mul(out, _num_pow(cont, ev))
    if cm:
        out = mul(out, power(from_poly({cm: Fraction(1)}), e))
    return out


def div(a, b):
    if is_num(b):
        if b.args[0] == 0:
            return opaque("division by zero", a)
        return scale(a, 1 / b.args[0])
    return mul(a, power(b, num(-1)))


def sqrt(a):
    return power(a, num(Fraction(1, 2)))


def exp(t):
    if t.op == "neginf":
        return ZERO
    p = poly_of(t)
    if not p:
        return ONE
    if t is INF:
        return INF
    if p.get(((INF, Fraction(1)),), 0) < 0:
        return ZERO
    if t.op == "ite":
        c, a, b = t.args
        return ite(c, exp(a), exp(b))
    rest = {}
    out = None
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "log":
            f = power(m[0][0].args[0], num(c))
            out = f if out is None else mul(out, f)
        elif len(m) > 1 and any(a.op == "log" and e == 1 for a, e in m) and False:
            pass
        else:
            rest[m] = c
    r = from_poly(rest)
    if out is not None:
        return mul(out, exp(r)) if rest else out
    if len(rest) == 1:
        (m, c), = rest.items()
        # a * log(b) stays exp(a*log b); ite factors pulled out of pure multiples are left alone
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ite" and _has_inf(m[0][0]):
            cc, a, b = m[0][0].args
            return ite(cc, exp(scale(a, c)), exp(scale(b, c)))
    else:
        # exp(x + ite(c, -inf, y)) -> ite(c, 0, exp(x+y))
        for m, c in rest.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ite" and _has_inf(m[0][0]):
                others = from_poly({k: v for k, v in rest.items() if k != m})
                cc, a, b = m[0][0].args
                return ite(cc, exp(add(scale(a, c), others)), exp(add(scale(b, c), others)))
    return mk("exp", r)


def _has_inf(t, d=0):
    if t is INF:
        return True
    if d > 6:
        return False
    if t.op == "poly":
        return any(a is INF for m, _ in t.args for a, _e in m)
    if t.op == "ite":
        return _has_inf(t.args[1], d + 1) or _has_inf(t.args[2], d + 1)
    return False


def log(t):
    if t.op == "num":
        v = t.args[0]
        if v == 0:
            return neg(INF)
        if v < 0:
            return mk("log", t)
        if v == 1:
            return ZERO
        out = ZERO
        for n, s in ((v.numerator, 1), (v.denominator, -1)):
            for p, k in _factor(n):
                out = add(out, scale(mk("log", mk("num", Fraction(p))), k * s))
        return out
    if t is INF:
        return INF
    if t.op == "exp":
        return t.args[0]
    if t.op == "ite":
        return ite(t.args[0], log(t.args[1]), log(t.args[2]))
    p = poly_of(t)
    if len(p) == 1:
        (m, c), = p.items()
        if c < 0:
            return mk("log", t)
        if t.op != "poly":
            return mk("log", t)
        out = log(mk("num", c))
        for a, e in m:
            la = a.args[0] if a.op == "exp" else (ite(a.args[0], log(a.args[1]), log(a.args[2])) if a.op == "ite"
                                                  else (log(a) if a.op in ("poly", "num") else mk("log", a)))
            out = add(out, scale(la, e))
        return out
    cont, cm, q = _content(p)
    qa = from_poly(q)
    out = mk("log", qa)
    if cont != 1:
        out = add(out, log(mk("num", cont)))
    if cm:
        out = add(out, log(from_poly({cm: Fraction(1)})))
    return out


def absv(t):
    if t.op == "num":
        return mk("num", abs(t.args[0]))
    if t.op in ("exp", "len", "abs", "trip"):
        return t
    if gt0(t) is TRUE or _nonneg(t):
        return t
    if gt0(neg(t)) is TRUE:
        return neg(t)
    p = poly_of(t)
    lead = sorted(p.items(), key=lambda mc: tuple((a.id, x) for a, x in mc[0]))[-1][1]
    if lead < 0:
        t = neg(t)
    return mk("abs", t)


# ------------------------------------------------------------------ booleans
def bnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "num":
        return TRUE if c.args[0] == 0 else FALSE
    if c.op == "and":
        return bor(*[bnot(a) for a in c.args])
    if c.op == "ite":
        return ite(c.args[0], bnot(c.args[1]), bnot(c.args[2]))
    return mk("not", c)


def band(*cs):
    out = []
    for c in cs:
        if c.op == "and":
            out.extend(c.args)
        elif c is FALSE:
            return FALSE
        elif c is not TRUE:
            out.append(c)
    s = sorted(set(out), key=_akey)
    for c in s:
        if bnot_atom(c) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return mk("and", *s)


def bnot_atom(c):
    return c.args[0] if c.op == "not" else mk("not", c)


def bor(*cs):
    out = []
    for c in cs:
        if c.op == "or":
            out.extend(c.args)
        elif c is TRUE:
            return TRUE
        elif c is not FALSE:
            out.append(c)
    s = sorted(set(out), key=_akey)
    for c in s:
        if bnot_atom(c) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return mk("or", *s)


def gt0(t):
    """t > 0"""
    if t.op == "num":
        return TRUE if t.args[0] > 0 else FALSE
    if t.op == "nan":
        return FALSE
    if t is INF:
        return TRUE
    p = poly_of(t)
    if any(a.op == "nan" for m in p for a, _e in m):
        return FALSE
    if len(p) == 1:
        (m, c), = p.items()
        if m == ((INF, Fraction(1)),):
            return TRUE if c > 0 else FALSE
        a = from_poly({m: Fraction(1)})
        if _nonneg(a) and c < 0:
            return FALSE
        if _positive(a) and c > 0:
            return TRUE
        return mk("gt0", from_poly({m: Fraction(1 if c > 0 else -1)}))
    if ((INF, Fraction(1)),) in p:
        # x > -inf  /  x < inf : finite test
        ci = p[((INF, Fraction(1)),)]
        rest = from_poly({m: c for m, c in p.items() if m != ((INF, Fraction(1)),)})
        if ci > 0:
            return bnot(isneginf(rest))
        return FALSE if finite(rest) else mk("gt0", t)
    if all(c < 0 and _nonneg(from_poly({m: Fraction(1)})) for m, c in p.items()):
        return FALSE
    if all(c > 0 and _nonneg(from_poly({m: Fraction(1)})) for m, c in p.items()) and \
            any(_positive(from_poly({m: Fraction(1)})) for m in p):
        return TRUE
    b = _bounds(p)
    if b is not None:
        if b[1] <= 0:
            return FALSE
        if b[0] >= 0:
            return TRUE
    if len(p) == 2:
        (m1, c1), (m2, c2) = p.items()
        if c1 * c2 < 0:
            if c1 < 0:
                (m1, c1), (m2, c2) = (m2, c2), (m1, c1)
            if any(a.op == "exp" for a, _ in m1 + m2):
                return mk("gt0", sub(log(from_poly({m1: c1})), log(from_poly({m2: -c2}))))
    cont, cm, q = _content(p)
    t2 = from_poly({m: c / cont for m, c in p.items()})
    if cm and all(_positive(from_poly({((a, e),): Fraction(1)})) for a, e in cm):
        t2 = from_poly(q)
    return mk("gt0", t2)


def _bounds(p):
    """open interval containing a linear form of symbols with known ranges, or None"""
    lo = hi = Fraction(0)
    strict = False
    for m, c in p.items():
        if not m:
            lo += c
            hi += c
            continue
        if len(m) != 1 or m[0][1] != 1:
            return None
        r = META.get(m[0][0], {}).get("rng")
        if r is None:
            return None
        strict = True
        lo += min(c * r[0], c * r[1])
        hi += max(c * r[0], c * r[1])
    return (lo, hi) if strict else None


def _isint(t):
    return t.op in ("len", "size", "trip", "nnz", "idx", "randint", "ceil", "floor", "int") or \
        t.op == "num" and t.args[0].denominator == 1 or META.get(t, {}).get("int", False) or \
        t.op == "fresh" and t.args[0].args[0] == "int" or \
        t.op == "loopout" and bool(LOOPMETA.get(t.args[0], (0, 0, {}))[2].get("int"))


def floor(t):
    """largest whole number below; whole parts come out, and what is left between two whole numbers goes"""
    if t.op == "num":
        return num(math.floor(t.args[0]))
    if _isint(t):
        return t
    p = poly_of(t)
    whole, rest = {}, {}
    for m, c in p.items():
        if c.denominator == 1 and m and all(_isint(a) and e > 0 and e.denominator == 1 for a, e in m):
            whole[m] = c
        else:
            rest[m] = c
    if not rest:
        return t
    lo = hi = Fraction(0)
    closed = True
    for m, c in rest.items():
        if not m:
            lo, hi = lo + c, hi + c
            continue
        r = META.get(m[0][0], {}).get("rng") if len(m) == 1 and m[0][1] == 1 else None
        if r is None:
            lo = None
            break
        if _isint(m[0][0]):
            r = (math.floor(r[0]) + 1, math.ceil(r[1]) - 1)
        else:
            closed = False
        lo, hi = lo + min(c * r[0], c * r[1]), hi + max(c * r[0], c * r[1])
    if lo is not None:
        k = math.floor(lo)
        if hi < k + 1 or hi == k + 1 and not closed:
            return add(from_poly(whole), num(k))
    return add(from_poly(whole), mk("floor", from_poly(rest))) if whole else mk("floor", t)


def trunc(t):
    """int(x): towards zero"""
    if t.op == "num":
        return num(math.trunc(t.args[0]))
    if _isint(t):
        return t
    f = floor(t)
    if f.op != "floor" and (_nonneg(f) or gt0(t) is TRUE):
        return f
    return mk("int", t)


def _nonneg(t):
    if t.op in ("len", "size", "exp", "abs", "trip", "nnz", "count", "idx", "rand01"):
        return True
    if t.op == "fresh":
        return t.args[0].args[0] == "int"
    if t.op == "num":
        return t.args[0] >= 0
    if META.get(t, {}).get("nonneg") or META.get(t, {}).get("pos"):
        return True
    if t.op == "loopout":
        return bool(LOOPMETA.get(t.args[0], (0, 0, {}))[2].get("nonneg"))
    if t.op == "poly":
        return all(c > 0 and all(_nonneg(a) or (e.denominator == 1 and int(e) % 2 == 0) for a, e in m) for m, c in t.args)
    return False


def _positive(t):
    if t.op == "exp":
        return True
    if t.op == "num":
        return t.args[0] > 0
    if META.get(t, {}).get("pos"):
        return True
    if t.op == "poly":
        if t in _POS:
            return True
        if any(c > 0 and all(_positive(a) for a, e in m) for m, c in t.args) and (len(t.args) == 1 or _nonneg(t)):
            _POS.add(t)
            return True
    return False


_POS = set()


def ge0(t):
    return bnot(gt0(neg(t)))


BOOLISH = lambda t: False       # set by arr: the term has truth values


def eq(a, b):
    if a is b:
        return TRUE
    ca, cb = _constlike(a), _constlike(b)
    if ca and cb:
        return FALSE
    if (b is TRUE or b is FALSE) and BOOLISH(a):
        return a if b is TRUE else bnot(a)
    if (a is TRUE or a is FALSE) and BOOLISH(b):
        return b if a is TRUE else bnot(b)
    if (a.op == "const") or (b.op == "const"):
        if (a.op == "num" and b.op == "const") or (b.op == "num" and a.op == "const"):
            return FALSE
        if a.op == "ite" and _constlike(a.args[1]) and _constlike(a.args[2]):
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if b.op == "ite":
            return eq(b, a)
        x, y = sorted((a, b), key=_akey)
        return mk("eq", x, y)
    d = sub(a, b)
    if d.op == "num":
        return TRUE if d.args[0] == 0 else FALSE
    p = poly_of(d)
    if any(a.op == "nan" for m in p for a, _e in m):
        return FALSE
    if len(p) > 1:
        cont, cm, q = _content(p)
        d = from_poly({m: c / cont for m, c in p.items()})
        p = poly_of(d)
    if gt0(d) is TRUE or gt0(neg(d)) is TRUE:
        return FALSE
    lead = sorted(p.items(), key=lambda mc: tuple((x.id, e) for x, e in mc[0]))[-1][1]
    if lead < 0:
        d = neg(d)
    if len(poly_of(d)) == 1:
        (m, c), = poly_of(d).items()
        d = from_poly({m: Fraction(1)})
    return mk("eq0", d)


def _constlike(t):
    return t.op in ("num", "const", "true", "false")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "full" and c.args[1] in (TRUE, FALSE) and len(c.args[0]) == 1:
        from . import arr
        x = a if c.args[1] is TRUE else b
        if arr.rank(x) and arr.length(x) is c.args[0][0]:
            return x
    if c.op == "not":
        return ite(c.args[0], b, a)
    a = restrict(a, c, True)
    b = restrict(b, c, False)
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    # idioms: accumulate-or-start
    e = _empty_test(c)
    if e is not None:
        x, pol = e          # c true <=> x is non-empty (pol) / empty (not pol)
        full, start = (a, b) if pol else (b, a)
        if full.op == "concat" and full.args[0] is x and start is concat(*full.args[1:]):
            return full
        if full.op == "concat" and full.args[-1] is x and start is concat(*full.args[:-1]):
            return full
        if start is EMPTY and full is x:
            return x
    if _numlike(a) and _numlike(b):
        pa, pb = poly_of(a), poly_of(b)
        common = {m: v for m, v in pa.items() if pb.get(m) == v}
        if common and (len(pa) > len(common) or len(pb) > len(common)):
            ra = from_poly({m: v for m, v in pa.items() if m not in common})
            rb = from_poly({m: v for m, v in pb.items() if m not in common})
            if not any(x is INF for m in list(pa) + list(pb) for x, _ in m):
                return add(from_poly(common), ite(c, ra, rb))
    if a.op == "concat" and b.op == "concat" and a.args[0] is b.args[0]:
        return concat(a.args[0], ite(c, concat(*a.args[1:]), concat(*b.args[1:])))
    if a.op == "concat" and a.args[0] is b:
        return concat(b, ite(c, concat(*a.args[1:]), EMPTY))
    if b.op == "concat" and b.args[0] is a:
        return concat(a, ite(c, EMPTY, concat(*b.args[1:])))
    return mk("ite", c, a, b)


def _numlike(t):
    return t.op not in ("const", "true", "false", "concat", "empty", "collect", "single", "sconcat", "fmt", "obj",
                        "dist", "tuple")


def _empty_test(c):
    """c as a non-emptiness test of some x -> (x, True) ; emptiness -> (x, False)"""
    if c.op == "not":
        r = _empty_test(c.args[0])
        return (r[0], not r[1]) if r else None
    if c.op == "gt0" and c.args[0].op in ("len", "size"):
        return c.args[0].args[0], True
    if c.op == "eq0" and c.args[0].op in ("len", "size"):
        return c.args[0].args[0], False
    if c.op == "isnone":
        return c.args[0], False
    if c.op == "truthy":
        return c.args[0], True
    return None


_RCACHE = {}


def restrict(t, c, val):
    """simplify t under the assumption that condition c is val (structural, shallow-ish)"""
    if t is c:
        return TRUE if val else FALSE
    if t.op in ("num", "const", "sym", "true", "false"):
        return t
    if not contains(t, c if c.op != "not" else c.args[0]):
        if not (c.op == "and" and val) and not (c.op == "or" and not val):
            return t
    k = (t, c, val)
    if k in _RCACHE:
        return _RCACHE[k]
    m = {c: TRUE if val else FALSE}
    if c.op == "not":
        m[c.args[0]] = FALSE if val else TRUE
    if c.op == "and" and val:
        for a in c.args:
            m[a] = TRUE
            if a.op == "not":
                m[a.args[0]] = FALSE
    if c.op == "or" and not val:
        for a in c.args:
            m[a] = FALSE
            if a.op == "not":
                m[a.args[0]] = TRUE
    if ARRAYCOND and ARRAYCOND[0](c):
        r = _rowsub(t, m, {})
    else:
        r = subst(t, m)
    _RCACHE[k] = r
    return r


ARRAYCOND = []        # set by arr: does the condition hold element by element
ROWWISE = {"poly", "exp", "log", "abs", "not", "gt0", "eq0", "eq", "and", "or", "isnan", "isneginf", "isposinf", "ite", "maximum",
           "minimum", "clip", "floor", "ceil", "int", "round", "mod", "floordiv", "isclose", "copy", "powneg"}


def _rowsub(t, m, memo):
    """substitute only where element i of the result reads element i of the condition"""
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if t.op == "poly":
        r = add(*[scale(mul(*[power(_rowsub(a, m, memo), num(e)) for a, e in mm]) if mm else ONE, c) for mm, c in t.args])
    elif t.op in ROWWISE:
        n = [_rowsub(a, m, memo) if isinstance(a, T) else a for a in t.args]
        r = t if all(a is b for a, b in zip(n, t.args)) else rebuild(t.op, n)
    else:
        r = t
    memo[t] = r
    return r


# ------------------------------------------------------------------ sequences / arrays
def concat(*ts):
    out = []
    for t in ts:
        if t.op == "concat":
            out.extend(t.args)
        elif t is EMPTY:
            continue
        else:
            out.append(t)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk("concat", *out)


# ------------------------------------------------------------------ traversal
_SUBS = {}


def children(t):
    if t.op == "poly":
        for m, _ in t.args:
            for a, _e in m:
                yield a
    else:
        for a in t.args:
            if isinstance(a, T):
                yield a
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, T):
                        yield b


_SUBT = {}


def subterms(t):
    r = _SUBT.get(t)
    if r is None:
        s = {t}
        for a in children(t):
            s |= subterms(a)
        r = _SUBT[t] = frozenset(s)
    return r


def contains(t, x):
    return x in subterms(t)


def has_op(t, ops):
    return any(s.op in ops for s in subterms(t))


def find(t, pred):
    return [s for s in subterms(t) if pred(s)]


REBUILD = {}


def _isclose(a, b):
    a, b = sorted((a, b), key=_akey)
    return TRUE if a is b else mk("isclose", a, b)


REBUILD["isclose"] = _isclose


def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args)


def mapterm(t, f, cache=None):
    """bottom-up rebuild; f(term) may return a replacement for an (already rebuilt) node or None; f is first tried on the
    original node (top-down cut)."""
    if cache is None:
        cache = {}
    if t in cache:
        return cache[t]
    r = f(t)
    if r is not None:
        cache[t] = r
        return r
    if t.op in ("num", "const", "sym", "true", "false", "inf", "empty", "nan"):
        r = t
    elif t.op == "poly":
        ch = False
        parts = []
        for m, c in t.args:
            fs = []
            for a, e in m:
                na = mapterm(a, f, cache)
                if na is not a:
                    ch = True
                fs.append((na, e))
            parts.append((fs, c))
        if ch:
            r = ZERO
            for fs, c in parts:
                x = mk("num", c)
                for a, e in fs:
                    x = mul(x, power(a, mk("num", e)))
                r = add(r, x)
        else:
            r = t
    else:
        na = []
        ch = False
        for a in t.args:
            if isinstance(a, T):
                b = mapterm(a, f, cache)
                if b is not a:
                    ch = True
                na.append(b)
            elif isinstance(a, tuple) and any(isinstance(z, T) for z in a):
                b = tuple(mapterm(z, f, cache) if isinstance(z, T) else z for z in a)
                if b != a:
                    ch = True
                na.append(b)
            else:
                na.append(a)
        r = rebuild(t.op, na) if ch else t
    cache[t] = r
    return r


def subst(t, m):
    if not m:
        return t
    keys = set(m)
    st = subterms(t)
    if not (keys & st):
        return t
    return mapterm(t, lambda x: m.get(x))


def _real(t):
    """atoms known to be ordinary numbers"""
    m = META.get(t, {})
    return t.op == "sym" and m.get("kind") == "num" and bool(m.get("pos") or m.get("rng") or m.get("finite"))


def finite(t):
    """an ordinary number whatever its ordinary atoms are (overflow aside)"""
    if t.op == "num" or _real(t) or t.op == "sym" and t.args and t is PI:
        return True
    if t.op == "exp":
        return finite(t.args[0])
    if t.op == "log":
        return gt0(t.args[0]) is TRUE and finite(t.args[0])
    if t.op == "poly":
        return all(finite(a) and (e > 0 or gt0(a) is TRUE) for m, _c in t.args for a, e in m)
    return False


def isnan(t):
    if t.op in ("num", "inf") or t is neg(INF) or _real(t):
        return FALSE
    if t.op == "nan":
        return TRUE
    if t.op == "ite":
        return ite(t.args[0], isnan(t.args[1]), isnan(t.args[2]))
    if _nan(t):
        return TRUE
    if finite(t):
        return FALSE
    return mk("isnan", t)


def _nan(t):
    """arithmetic on a NaN"""
    if t.op == "nan":
        return True
    if t.op == "poly":
        return any(_nan(a) for m, _c in t.args for a, _e in m)
    return t.op in ("exp", "log", "abs") and _nan(t.args[0])


def isneginf(t):
    if t is neg(INF):
        return TRUE
    if t is INF or t.op in ("num", "exp") or finite(t):
        return FALSE
    if t.op == "ite":
        return ite(t.args[0], isneginf(t.args[1]), isneginf(t.args[2]))
    return mk("isneginf", t)


REBUILD.update({
    "floor": lambda a: floor(a), "int": lambda a: trunc(a),
    "isneginf": lambda a: isneginf(a),
    "isnan": lambda a: isnan(a),
    "exp": lambda a: exp(a), "log": lambda a: log(a), "abs": lambda a: absv(a), "not": lambda a: bnot(a),
    "and": lambda *a: band(*a), "or": lambda *a: bor(*a), "gt0": lambda a: gt0(a), "ite": lambda c, a, b: ite(c, a, b),
    "truthy": lambda a: a if a.op in ("true", "false", "gt0", "eq0", "and", "or", "not", "truthy") else mk("truthy", a),
    "eq0": lambda a: eq(a, ZERO), "eq": lambda a, b: eq(a, b), "concat": lambda *a: concat(*a),
})


# ------------------------------------------------------------------ opacity
LOOPEND = {}      # loop -> serial of the last thing made while analysing it
LOOPMETA = {}     # loop variable -> (its symbol inside the loop, indices of the loops around, what is known)
OPAQUE_OPS = {"opaque", "ext", "loopout", "extcall"}
_OPQ = {}


def is_opaque(t):
    r = _OPQ.get(t)
    if r is None:
        r = t.op in OPAQUE_OPS or any(is_opaque(a) for a in children(t))
        _OPQ[t] = r
    return r


def opaque_reasons(t):
    return sorted({(s.op + ":" + str(s.args[0])) for s in subterms(t) if s.op in OPAQUE_OPS})


# ------------------------------------------------------------------ random interpretation
K = 16
_FP = {}
BOOL_OPS = {"isnone", "isneginf", "truthy", "in", "all", "any", "isinstance", "hasattr", "eq", "callable", "isnan",
            "isclose", "exists", "bool"}


def _prf(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big") / 2.0 ** 64


def _rnd(x):
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return str(x)
    return "%.7e" % x


def fp(t):
    r = _FP.get(t)
    if r is None:
        r = tuple(_fp1(t, i) for i in range(K))
        _FP[t] = r
    return r


_SUMS = {}
SUMBUDGET = 700


def binders(t):
    """how many terms spelling out the sums in t makes"""
    r = _BND.get(t)
    if r is None:
        r = max([binders(a) for a in children(t)] or [1])
        if t.op == "lsum":
            r *= max([x for x in fp(t.args[0])] + [1])
        _BND[t] = r
    return r


_BND = {}


def sumover(t):
    """sums over a whole number of things are spelt out"""
    if t in _SUMS:
        return _SUMS[t]
    n, v, b = t.args
    f = fp(n)
    out = None
    if all(x == x and x == int(x) and 0 <= x <= 20 for x in f):
        out = [0.0] * K
        if binders(t) > SUMBUDGET:
            out = [float("nan")] * K
        else:
            for k in range(int(max(f))):
                y = fp(subst(b, {v: num(k)}))
                out = [o + y[i] if k < f[i] else o for i, o in enumerate(out)]
    _SUMS[t] = out
    return out


def _fp1(t, i):
    op = t.op
    try:
        if op == "num":
            return float(t.args[0])
        if op == "true":
            return 1.0
        if op == "false":
            return 0.0
        if op == "inf":
            return float("inf")
        if op == "nan":
            return float("nan")
        if op == "sym":
            if t is PI:
                return math.pi
            u = _prf("sym", t.args[0], i)
            if META.get(t, {}).get("kind") == "bool":
                return 1.0 if u > .5 else 0.0
            if META.get(t, {}).get("kind") == "num" and META.get(t, {}).get("int"):
                r = META[t].get("rng")
                if r:
                    n = math.ceil(r[1]) - math.floor(r[0]) - 1
                    return float(math.floor(r[0]) + 1 + int(u * n))
                if META[t].get("nonneg") and not META[t].get("pos") and _prf("zero", t.args[0], i) < .3:
                    return 0.0
                return float(1 + int(u * 5))
            m = META.get(t, {})
            if m.get("rng"):
                return float(m["rng"][0]) + (0.02 + 0.96 * u) * float(m["rng"][1] - m["rng"][0])
            return _signed(m, u, i)
        if op == "poly":
            s = 0.0
            for m, c in t.args:
                v = float(c)
                for a, e in m:
                    b = _at(a, i)
                    if b < 0 and e.denominator != 1:
                        v = float("nan")
                    else:
                        v *= b ** (int(e) if e.denominator == 1 else float(e))
                s += v
            return s
        if op in ("floor", "int"):
            v = _at(t.args[0], i)
            if abs(v - round(v)) < 1e-9 * max(1, abs(v)):
                v = round(v)
            return float(math.floor(v) if op == "floor" else math.trunc(v))
        if op == "exp":
            v = _at(t.args[0], i)
            if i >= K and abs(v) > 300:
                return float("nan")     # too close to what numbers can hold
            return math.exp(min(v, 700.0))
        if op == "log":
            v = _at(t.args[0], i)
            return math.log(v) if v > 0 else (float("-inf") if v == 0 else float("nan"))
        if op == "abs":
            return abs(_at(t.args[0], i))
        if op == "not":
            return 1.0 - _at(t.args[0], i)
        if op == "and":
            return 1.0 if all(_at(a, i) for a in t.args) else 0.0
        if op == "or":
            return 1.0 if any(_at(a, i) for a in t.args) else 0.0
        if op == "gt0":
            return 1.0 if _at(t.args[0], i) > (1e-9 if i < K else _noise(t.args[0], i)) else 0.0
        if op == "eq0":
            v = abs(_at(t.args[0], i))
            if v < (1e-9 if i < K else _noise(t.args[0], i)):
                return 1.0
            return 1.0 if _prf("eq0", _rnd(v), i) > .5 else 0.0
        if op == "ite":
            return _at(t.args[1], i) if _at(t.args[0], i) else _at(t.args[2], i)
        if op == "maximum":
            return max(_at(a, i) for a in t.args)
        if op == "minimum":
            return min(_at(a, i) for a in t.args)
        if op == "lsum":
            if i < K:
                v = sumover(t)
                if v is not None and v[i] is not None:
                    return v[i]
            else:
                n = _at(t.args[0], i)
                if n == n and n == int(n):
                    if not 0 <= n <= 12 or binders(t) > SUMBUDGET:
                        return float("nan")
                    return sum(_at(subst(t.args[2], {t.args[1]: num(k)}), i) for k in range(int(n)))
        if op == "rand01":
            return 0.02 + 0.96 * _prf("rand01", t.args, i)
    except (OverflowError, ValueError, ZeroDivisionError):
        return float("nan")
    parts = [op]
    for a in t.args:
        if isinstance(a, T):
            parts.append(_rnd(_at(a, i)))
        elif isinstance(a, tuple):
            parts.append(tuple(_rnd(_at(b, i)) if isinstance(b, T) else repr(b) for b in a))
        else:
            parts.append(repr(a))
    u = _prf(*parts, i)
    if op in BOOL_OPS:
        return 1.0 if u > .5 else 0.0
    if op == "logp" and i >= K:
        return (0.35 + 2.3 * u - 1.2) * max(1.0, SCALES[i - K])
    if op == "at":
        return _signed(META.get(t, {}), u, i)
    return (0.35 + 2.3 * u) * (SCALES[i - K] if i >= K and op not in DISCRETE else 1)


# comparisons that came out the same way at every point are tried at points of other magnitudes
SCALES = (1e-2, 1e2, 1e-4, 1e4, 1e-6, 10.0, 0.1, 1e-3, 1e3, 30.0, 1e-5, 0.03, 200.0, 150.0, 1e-60, 1e-70)
DISCRETE = {"len", "size", "trip", "nnz", "idx", "key", "clock", "const", "dist", "draw", "tuple", "fmt", "rand01", "rand", "pred", "randint"}
_FPX = {}


def _at(t, i):
    if i < K:
        return fp(t)[i]
    r = _FPX.get((t, i))
    if r is None:
        r = _FPX[(t, i)] = _fp1(t, i)
    return r


def _noise(t, i):
    """what rounding can leave of this quantity when it is zero"""
    if t.op != "poly":
        return 1e-300
    s = 0.0
    for m, c in t.args:
        v = abs(float(c))
        for a, e in m:
            x = abs(_at(a, i))
            v = float("nan") if x != x or (x == 0 and e < 0) else v * x ** float(e) if x < 1e60 else float("inf")
        s += v if v == v else 0
    return max(1e-9 * s, 1e-300)


def _oneway(t):
    """a comparison with one and the same outcome at all the points"""
    if t.op == "gt0":
        return len(set(fp(t))) == 1
    if t.op in ("maximum", "minimum"):
        f = max if t.op == "maximum" else min
        return any(all(fp(x)[i] == f(fp(y)[i] for y in t.args) for i in range(K)) for x in t.args)
    return False


def elsewhere(a, b):
    """True / False / None: whether they agree at points of other magnitudes, if these exercise a comparison only one of them makes"""
    sa, sb = set(subterms(a)), set(subterms(b))
    odd = [s for s in sa ^ sb if s.op in ("gt0", "maximum", "minimum") and _oneway(s)]
    if not odd or len(sa) + len(sb) > 4000:
        return True
    bad = 0
    for i in range(K, K + len(SCALES)):
        x, y = _at(a, i), _at(b, i)
        if x != x or y != y or math.isinf(x) or math.isinf(y) or max(abs(x), abs(y)) > 1e200:
            continue
        if abs(x - y) > 1e-3 * max(abs(x), abs(y)) and max(abs(x), abs(y)) > 1e-12:
            bad += 1
    return False if bad >= 2 else None if bad else True


def _signed(m, u, i):
    """positive on the first half of the sample, of either sign on the second half"""
    if i >= K:
        v = (0.35 + 2.3 * u) * SCALES[i - K]
        return v if m.get("pos") or m.get("nonneg") or m.get("kind") == "dist" or (u * 1048576) % 1 > .5 else -v
    if i < K // 2 or m.get("pos") or m.get("nonneg") or m.get("kind") == "dist":
        return 0.35 + 2.3 * u
    return (0.35 + 2.3 * u) * (1 if (u * 1048576) % 1 > .5 else -1)


def equal(a, b):
    """equality by normal form, then by random interpretation"""
    return equal3(a, b) is True


def equal3(a, b):
    """True / False / None (too few points at which both have a value)"""
    if a is b:
        return True
    fa, fb = fp(a), fp(b)
    good = 0
    for x, y in zip(fa, fb):
        if x != x or y != y:
            if (x != x) != (y != y):
                continue
            continue
        if x in (float("inf"), float("-inf")) or y in (float("inf"), float("-inf")):
            if x != y:
                return False
            good += 1
            continue
        if abs(x - y) > 1e-6 * max(1.0, abs(x), abs(y)):
            return False
        good += 1
    return elsewhere(a, b) if good >= 3 else None


# ------------------------------------------------------------------ printing
def show(t, depth=0):
    if not isinstance(t, T):
        return repr(t)
    if depth > 14:
        return "…"
    op = t.op
    if op == "num":
        return str(t.args[0])
    if op == "const":
        return repr(t.args[1])
    if op == "sym":
        return str(t.args[0])
    if op in ("true", "false", "inf", "empty", "nan"):
        return op
    if op == "poly":
        parts = []
        for m, c in t.args:
            s = "*".join((show(a, depth + 1) if e == 1 else "%s^%s" % (show(a, depth + 1), e)) for a, e in m)
            if not m:
                parts.append(str(c))
            elif c == 1:
                parts.append(s)
            elif c == -1:
                parts.append("-" + s)
            else:
                parts.append("%s*%s" % (c, s))
        return "(" + " + ".join(parts) + ")"
    if op == "gt0":
        return "%s > 0" % show(t.args[0], depth + 1)
    return "%s(%s)" % (op, ", ".join(show(a, depth + 1) if isinstance(a, T) else
                                     (str(tuple(show(z, depth + 1) for z in a)) if isinstance(a, tuple) else str(a)) for a in t.args))
