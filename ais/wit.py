"""Separating two scalar terms by a point at which they have different values.

Every operation of both terms is given its real meaning (in 90 digits, so nothing under- or overflows); the leaves are free
quantities, uninterpreted applications (densities of library laws, inverses, determinants, outside readings) are functions of
the values of their arguments. A term with any other operation is not judged. The points respect what is recorded of the leaves
(positive, bounded, whole numbers), so a difference is a difference of the two formulas, not of the abstraction."""
import mpmath
from mpmath import mpf, mp
from .terms import *
from . import terms as tm

mp.dps = 90
INF_ = mpf("inf")


class Undef(Exception):
    pass


FREE = {"logp", "inv", "det", "dist", "draw", "key", "diag", "index", "ext", "clock", "fresh", "quad", "normal", "str", "strconst"}
SPECIAL = {"$ftiny": mpf(2) ** -1022, "$fmin": -mpf(2) ** 1024, "$fmax": mpf(2) ** 1024, "$feps": mpf(2) ** -52}
SCALES = (1, 1, 1, 3, .3, 10, 30, .05, 100, 1, 1, 2, 1000, .5, 5, 1)

# magnitudes of the points after those: all leaves alike, or each leaf its own between two
FAR = (1e-3, 1e-4, 1e-6, 1e-9, 1e-12, 1e-16, 1e-24, 1e4, 1e6, 1e9, .03, .01, (-12, 0), (-12, 0), (-6, 2), (-18, 0), (-3, 9), (-12, 0), (-24, 1), (-9, 0))


class Point:
    """one assignment of the leaves; lo/hi: symbols that are whole numbers of things"""

    def __init__(self, i, free=()):
        self.i, self.free = i, FREE | set(free)
        self.memo = {}

    def u(self, *parts):
        return tm._prf("wit", *parts, self.i)

    def leaf(self, t, tag):
        m = META.get(t, {})
        u = self.u(tag)
        if m.get("kind") == "bool":
            return mpf(1 if u > .5 else 0)
        r = m.get("rng")
        if m.get("int"):
            if r:
                lo, hi = int(mpmath.floor(r[0])) + 1, int(mpmath.ceil(r[1])) - 1
                return mpf(lo + int(u * (hi - lo + 1)))
            if m.get("nonneg") and not m.get("pos") and self.u(tag, "zero") < .3:
                return mpf(0)
            return mpf(1 + int(u * 5))
        if r:
            return mpf(r[0].numerator if hasattr(r[0], "numerator") else r[0]) / (r[0].denominator if hasattr(r[0], "denominator") else 1) \
                + (mpf("0.02") + mpf("0.96") * u) * (mpf(float(r[1])) - mpf(float(r[0])))
        if self.i >= 40:
            f = FAR[(self.i - 40) % len(FAR)]
            f = mpf(10) ** (f[0] + (f[1] - f[0]) * self.u(tag, "scale")) if isinstance(f, tuple) else mpf(f)
        else:
            f = mpf(10) ** (4 * self.u(tag, "scale") - 1) if self.i % 3 == 2 else SCALES[self.i % len(SCALES)]
        v = (mpf("0.3") + mpf("2.3") * u) * f
        if not (m.get("pos") or m.get("nonneg")) and self.u(tag, "sign") > .5:
            v = -v
        return v

    def tag(self, a):
        if isinstance(a, T):
            if a.op in ("sym", "num", "str", "true", "false", "none"):
                return a.op + repr(a.args)
            if a.op in ("key", "fmt"):
                return show(a)
            try:
                return mpmath.nstr(self(a), 12)
            except Undef:
                if a.op in self.free or a.op == "at":
                    return (a.op,) + tuple(self.tag(x) for x in a.args)
                raise
        if isinstance(a, tuple):
            return tuple(self.tag(x) for x in a)
        return repr(a)

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.ev(t)
        return r

    def ev(self, t):
        op = t.op
        if op == "num":
            f = t.args[0]
            return mpf(f.numerator) / f.denominator
        if op == "true":
            return mpf(1)
        if op == "false":
            return mpf(0)
        if op == "inf":
            return INF_
        if op == "nan":
            return mpf("nan")
        if op == "sym":
            if t is PI:
                return mp.pi
            if t.args[0] in SPECIAL:
                return SPECIAL[t.args[0]]
            if META.get(t, {}).get("rank") or META.get(t, {}).get("kind") in ("arr", "dist"):
                raise Undef("array")
            return self.leaf(t, ("sym", t.args[0]))
        if op == "poly":
            return self.num(sum(self.monos(t), mpf(0)))
        if op == "floor":
            return mpmath.floor(self(t.args[0]))
        if op == "exp":
            return self.num(mpmath.exp(self(t.args[0])))
        if op == "log":
            v = self(t.args[0])
            if v == 0:
                return -INF_
            if v < 0:
                raise Undef("log of a negative")
            return mpmath.log(v)
        if op == "abs":
            return abs(self(t.args[0]))
        if op == "not":
            return 1 - self(t.args[0])
        if op == "and":
            return mpf(all(self(a) for a in t.args))
        if op == "or":
            return mpf(any(self(a) for a in t.args))
        if op in ("gt0", "eq0"):
            v, a = self(t.args[0]), t.args[0]
            if v != 0 and a.op == "poly" and len(a.args) > 1 and abs(v) < mpf("1e-40") * max(abs(x) for x in self.monos(a)):
                raise Undef("on an edge")
            return mpf(v > 0 if op == "gt0" else v == 0)
        if op == "ite":
            return self(t.args[1]) if self(t.args[0]) else self(t.args[2])
        if op == "maximum":
            return max(self(a) for a in t.args)
        if op == "minimum":
            return min(self(a) for a in t.args)
        if op == "isnan" and t.args[0].op in ("sym", "at", "num", "poly", "ite", "exp"):
            self(t.args[0])
            return mpf(0)
        if op == "isneginf":
            return mpf(self(t.args[0]) == -INF_)
        if op == "isclose":
            a, b = self(t.args[0]), self(t.args[1])
            if 0 < abs(a - b) < mpf("1e-3"):
                raise Undef("close")
            return mpf(a == b)
        if op == "truthy" and (t.args[0].op in ("clock", "poly", "num", "ite") or META.get(t.args[0], {}).get("kind") == "num"):
            return mpf(self(t.args[0]) != 0)
        if op == "lsum":
            n = self(t.args[0])
            if n != int(n) or n > 12 or n < 0:
                raise Undef("sum")
            return self.num(sum((self(subst(t.args[2], {t.args[1]: num(k)})) for k in range(int(n))), mpf(0)))
        if op == "det" and t.args[0].op == "mat":
            return mpmath.det(self.matrix(t.args[0]))
        if op == "at":
            b = t.args[0]
            if b.op == "inv" and b.args[0].op == "mat" and len(t.args) == 3 and all(a.op == "num" for a in t.args[1:]):
                m = self.matrix(b.args[0])
                if mpmath.det(m) == 0:
                    raise Undef("singular")
                return mpmath.inverse(m)[int(t.args[1].args[0]), int(t.args[2].args[0])]
            if b.op == "sym" or b.op in self.free:
                v = self.leaf(t, ("at", self.tag(b)) + tuple(self.tag(a) for a in t.args[1:]))
                if META.get(b, {}).get("sym2") and len(t.args) == 3 and t.args[1] is t.args[2]:
                    v = abs(v)      # the diagonal of a covariance
                return v
        elif op in self.free:
            return self.leaf(t, (op,) + tuple(self.tag(a) for a in t.args))
        raise Undef(op)

    def matrix(self, t):
        r, c = (int(self(a)) if isinstance(a, T) else int(a) for a in t.args[:2])
        if r * c != len(t.args) - 2:
            raise Undef("matrix")
        return mpmath.matrix([[self(t.args[2 + i * c + j]) for j in range(c)] for i in range(r)])

    def monos(self, t):
        out = []
        for m, c in t.args:
            v = mpf(c.numerator) / c.denominator
            for a, e in m:
                b = self(a)
                if b < 0 and e.denominator != 1:
                    raise Undef("root of a negative")
                if b == 0 and e < 0:
                    raise Undef("division by zero")
                v *= b ** (int(e) if e.denominator == 1 else mpf(e.numerator) / e.denominator)
            out.append(v)
        return out

    @staticmethod
    def num(v):
        if isinstance(v, mpmath.mpc):
            raise Undef("complex")
        if mpmath.isnan(v):
            raise Undef("nan")
        return v


def separate(a, b, n=60, rel="1e-6", atol="0", free=(), where=None):
    """a point at which the two differ: (value, value, index) or None"""
    for i in range(n):
        p = Point(i, free)
        try:
            if where is not None and not p(where):
                continue
            x, y = p(a), p(b)
        except Undef:
            continue
        except (ValueError, TypeError, ZeroDivisionError, OverflowError, RecursionError):
            continue
        if mpmath.isnan(x) or mpmath.isnan(y):
            continue
        if mpmath.isinf(x) or mpmath.isinf(y):
            if x != y:
                return x, y, i
            continue
        if abs(x - y) > mpf(rel) * max(abs(x), abs(y)) and abs(x - y) > mpf(atol):
            return x, y, i
    return None


def blocked(t, n=40, free=()):
    """no point gives t a value"""
    for i in range(n):
        try:
            Point(i, free)(t)
            return False
        except (Undef, ValueError, TypeError, ZeroDivisionError, OverflowError):
            pass
    return True
