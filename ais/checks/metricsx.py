"""Metrics: C30 C31 C32 C33 C53.

The divergence code is interpreted abstractly on two symbolic densities at N points (N and the dimension instantiated); each
density value is a free symbol constrained by a regime (finite, minus infinity, zero, not a number), so that one comparison of
normal forms covers every pair of distributions and every point set with that pattern."""
from fractions import Fraction
from itertools import product
from ..terms import *
from ..vals import *
from ..interp import Interp
from .. import arr, elem
from ..elem import Unknown, compare
from ..report import Anchor
from .dists import prog, A, at, value, settle, residue, pos, rng, functions, where, N, show_msg
from . import dists

NINF = neg(INF)
NAN = mk("nan")


def cls(name):
    c = prog().cls(name)
    if c is None:
        raise Anchor("class %s not found" % name)
    return c


def fin(n):
    return sym(n, kind="num", rank=0, finite=True)


class Div:
    """one run of a divergence on two symbolic densities"""

    def __init__(self, name, n, d, entry="compute_from_samples", before=None):
        P = prog()
        self.it = it = Interp(P, adt_dists=False, dim=num(d))
        self.st = st = State()
        self.n, self.d = n, d
        self.asked = []
        self.ps0 = self.qs0 = self.xs0 = None
        ps, qs = sym("p%d" % d, kind="dist"), sym("q%d" % d, kind="dist")
        self.pd, self.qd = DVal(ps), DVal(qs)
        self.xs = A("x", num(n), num(d))
        self.arrs = {(k, m): A(m[0] + "_" + k, num(n)) for k in "pq" for m in ("log_prob", "prob")}

        def dens(it, st, dd, m, x):
            k = "p" if dd is ps else "q" if dd is qs else None
            if dd is self.ps0 or dd is self.qs0 or k and x is self.xs0:
                return it.box(st, A(m[0] + "_before_" + ("p" if dd is ps or dd is self.ps0 else "q"), arr.shape(self.xs0)[0]))
            if k is None:
                return None
            self.asked.append((k, m, x))
            if entry == "compute_from_samples" and x is not self.xs and not same_rows(x, self.xs, n, d):
                return None
            return it.box(st, self.arrs[(k, m)])
        it.dens_hook = dens
        self.o = it.instantiate(st, cls(name), [], {})
        self.v0 = it.deref(st, it.getattr(st, self.o, "value"))
        if before:
            # the same metric object has already measured something else
            who, how, n0 = before
            self.xs0 = A("x0", num(n0), num(d))
            self.ps0, self.qs0 = (ps, sym("q0%d" % d, kind="dist")) if who == "same target" else (
                sym("p0%d" % d, kind="dist"), sym("q0%d" % d, kind="dist"))
            it.salt = "before:"
            it.method(st, self.o, "compute_from_samples", [DVal(self.ps0), DVal(self.qs0), it.box(st, self.xs0)])
            if self.ps0 is ps:
                self.ps0 = None
            if how == "reset":
                it.method(st, self.o, "reset", [])
            it.salt = ""
        if entry == "compute_from_samples":
            r = it.method(st, self.o, entry, [self.pd, self.qd, it.box(st, self.xs)])
        else:
            r = it.method(st, self.o, entry, [], {"p": self.pd, "q": self.qd, "nsamples": num(n)})
        self.t = it.deref(st, r)
        self.stored = it.deref(st, it.getattr(st, self.o, "value"))


def same_rows(a, b, n, d):
    try:
        return all(compare(value(a, (num(i), num(j)), {}), value(b, (num(i), num(j)), {})) == "eq" for i in range(n) for j in range(d))
    except (Unknown, Exception):
        return False


def at_(b, i):
    return at(b, i)


# ------------------------------------------------------------------ C30 C31
def patterns(n, kinds, deep):
    """density states per point: full product when deep, otherwise every state at some point and every pair"""
    for pt in product(kinds, repeat=n):
        k = [x for x in pt if x != "in"]
        if not deep and len(k) > 1 and n > 2:
            continue
        if all(x != "in" for x in pt):
            continue
        yield pt


def kl_regime(r, pt):
    """log densities; returns (substitution, selected points)"""
    s, S = {}, []
    for i, k in enumerate(pt):
        p, q = fin("lp%d" % i), fin("lq%d" % i)
        if k == "plow":
            p = sub(num(-1000), pos("lp%d" % i))
        if k == "qlow":
            q = sub(num(-1000), pos("lq%d" % i))
        if k in ("in", "plow", "qlow"):
            S.append((p, q))
        s[at(r.arrs["p", "log_prob"], i)] = NINF if k in ("p0", "both") else p
        s[at(r.arrs["q", "log_prob"], i)] = NINF if k in ("q0", "both") else q
        s[at(r.arrs["p", "prob"], i)] = ZERO if k in ("p0", "both") else exp(p)
        s[at(r.arrs["q", "prob"], i)] = ZERO if k in ("q0", "both") else exp(q)
    return s, S


def kl_value(S):
    lzp = log(add(*[exp(p) for p, _ in S]))
    lzq = log(add(*[exp(q) for _, q in S]))
    return add(*[mul(exp(sub(p, lzp)), sub(sub(p, lzp), sub(q, lzq))) for p, q in S])


def pr_regime(r, pt):
    s, S = {}, []
    val = {"p0": (0, 1), "q0": (1, 0), "both": (0, 0), "pnan": (2, 1), "qnan": (1, 2), "nan0": (2, 0), "in": (1, 1), "tiny": (1, 1)}
    for i, k in enumerate(pt):
        x = [pos("P%d" % i), pos("Q%d" % i)]
        if k == "tiny":
            x[i % 2] = scale(x[i % 2], Fraction(1, 10 ** 200))
        if k in ("in", "tiny"):
            S.append(tuple(x))
        for nm, y, st in zip("pq", x, val[k]):
            s[at(r.arrs[nm, "prob"], i)] = (ZERO, y, NAN)[st]
            s[at(r.arrs[nm, "log_prob"], i)] = (NINF, log(y), NAN)[st]
    return s, S


def jsd_value(S):
    zp, zq = add(*[p for p, _ in S]), add(*[q for _, q in S])
    out = ZERO
    for p, q in S:
        P, Q = div(p, zp), div(q, zq)
        M = scale(add(P, Q), Fraction(1, 2))
        out = add(out, scale(add(mul(P, sub(log(P), log(M))), mul(Q, sub(log(Q), log(M)))), Fraction(1, 2)))
    return div(out, log(num(2)))


def divergence(rep, name, kinds, regime, spec, sizes):
    for n, d in sizes:
        def go(n=n, d=d):
            r = Div(name, n, d)
            w = where(name, "compute_from_samples")
            key = "%s:n%d:d%d" % (name, n, d)
            if shape_scalar(r.t):
                rep.ok(key + ":scalar", "the metric is one number", w)
            for pt in patterns(n, kinds, rep.tier != "quick" or n <= 2):
                k = key + ":" + ",".join(pt)

                def one(pt=pt, k=k):
                    s, S = regime(r, pt)
                    want = spec(S)
                    settle(rep, k, r, value(r.t, (), s), want, "%s with points (%s)" % (name, ", ".join(pt)), w)
                    settle(rep, k + ":stored", r, value(r.stored, (), s), want, "%s stored value with points (%s)" % (name, ", ".join(pt)), w)
                rep.guard(k, one)
            functions(rep, r)
        rep.guard("%s:n%d:d%d" % (name, n, d), go)


LOGS = [((-2, -45, 1, -7), (-40, -1, -9, 2)), ((-1, -2, -3, -160), (-90, -1, -2, -3)), ((-30, -31, -29, -33), (-5, -3, -4, -6)),
        ((30, 42, 1, 2), (33, 3, 55, 4)), ((-12, -2, -1, -3), (-2, -12, -14, -1)), ((-220, -221, -219, -222), (-230, -240, -231, -229)),
        ((-15, 0, 0, -1), (-40000, -1, -2, -1)), ((-30, 0, -1, -1), (-9 * 10 ** 14, -1, -1, 0))]


def numeric(rep, name, spec):
    """densities of very different magnitudes, as plain numbers: nothing is cut off, floored or shifted"""
    n, d = 4, 1

    def go():
        r = Div(name, n, d)
        w = where(name, "compute_from_samples")
        for j, (lp, lq) in enumerate(LOGS):
            k = "%s:magnitudes:%d" % (name, j)

            def one(lp=lp, lq=lq, k=k):
                if name == "CKLDivergence":
                    P, Q = [num(x) for x in lp], [num(x) for x in lq]
                    pr = [[exp(x) for x in v] for v in (P, Q)]
                else:
                    pr = [[num(Fraction(10) ** max(x // 2, -300) * (3 + i)) for i, x in enumerate(v)] for v in (lp, lq)]
                    P, Q = [[log(x) for x in v] for v in pr]
                s = {}
                for nm, l, v in (("p", P, pr[0]), ("q", Q, pr[1])):
                    for i in range(n):
                        s[at(r.arrs[nm, "log_prob"], i)], s[at(r.arrs[nm, "prob"], i)] = l[i], v[i]
                want = spec(list(zip(P, Q)) if name == "CKLDivergence" else list(zip(*pr)), r)
                settle(rep, k, r, value(r.t, (), s), want, "%s at densities of very different magnitudes (set %d)" % (name, j), w)
            rep.guard(k, one)
    rep.guard(name + ":magnitudes", go)


def again(rep, name, regime, spec):
    """what a metric object measured before does not show in what it measures now"""
    for b in (("other target", "", 3), ("other target", "", 2), ("same target", "", 3), ("same target", "reset", 3), ("other target", "reset", 3)):
        def go(b=b):
            n, d = 3, 2
            r = Div(name, n, d, before=b)
            w = where(name, "compute_from_samples")
            s, S = regime(r, ("in",) * n)
            k = "%s:used before:%s%s:%d points" % (name, b[0], b[1] and ":" + b[1], b[2])
            settle(rep, k, r, value(r.t, (), s), spec(S, r), "%s of an object that measured %s at other points before" % (
                name, "another target" if b[0] == "other target" else "the same target"), w)
        rep.guard("%s:used before:%s:%s:%d" % ((name,) + b), go)


def shape_scalar(t):
    return isinstance(t, T) and arr.shape(t) == ()


def C30(rep):
    rep.rule = ("KL value and stored value equal sum_S P(log P - log Q), P and Q normalised over S = points where both log "
                "densities are finite, for every pattern of out-of-support points")
    rep.assumptions = ["exact real arithmetic", "point counts and dimensions instantiated at 1..4 and 1..3"]
    divergence(rep, "CKLDivergence", ("in", "p0", "q0", "both", "plow", "qlow"), kl_regime, kl_value, [(2, 1), (3, 2), (4, 1)])
    numeric(rep, "CKLDivergence", lambda S, r: kl_value(S))
    again(rep, "CKLDivergence", kl_regime, lambda S, r: kl_value(S))
    computes(rep, "CKLDivergence")
    statics(rep)


def statics(rep):
    """the element functions add up to the same value"""
    c = cls("CKLDivergence")
    for m, kind in (("compute_from_log_probs", "log_prob"), ("compute_from_probs", "prob")):
        if not c.find(m):
            continue

        def go(m=m, kind=kind):
            it = Interp(prog(), adt_dists=False, dim=ONE)
            st = State()
            o = it.instantiate(st, c, [], {})
            n = 3
            ar = {(k, q): A(q[0] + "_" + k, num(n)) for k in "pq" for q in ("log_prob", "prob")}
            R = type("R", (), {"arrs": ar, "it": it})()
            t = it.deref(st, it.method(st, o, m, [it.box(st, ar["p", kind]), it.box(st, ar["q", kind])]))
            for pt in patterns(n, ("in", "p0", "q0", "both"), False):
                k = "CKLDivergence.%s:%s" % (m, ",".join(pt))

                def one(pt=pt, k=k):
                    s, S = kl_regime(R, pt)
                    try:
                        v = value(arr.sum_(t), (), s)
                    except Unknown as e:
                        rep.unsure(k, str(e), where("CKLDivergence", m))
                        return
                    settle(rep, k, R, v, kl_value(S), "sum of %s with points (%s)" % (m, ", ".join(pt)), where("CKLDivergence", m))
                rep.guard(k, one)
            functions(rep, R)
        rep.guard("CKLDivergence." + m, go)


def computes(rep, name):
    """compute() draws nsamples points uniformly over the support of p and evaluates both densities on the same points"""
    def go():
        for d in (1, 2):
            n = 3
            w = where(name, "compute")
            r = Div(name, n, d, entry="compute")
            key = "%s.compute:d%d" % (name, d)
            both = {}
            for k, m, x in r.asked:
                both.setdefault(k, []).append(x)
            if set(both) != {"p", "q"}:
                rep.unsure(key, "densities asked: %s" % sorted(both), w)
                continue
            xs = both["p"] + both["q"]
            if all(x is xs[0] or same_rows(x, xs[0], n, d) for x in xs):
                rep.ok(key + ":same", "both densities are evaluated on the same points", w)
            elif not any(is_opaque(x) for x in xs):
                rep.bad(key + ":same", "the two densities are evaluated on different points", w)
            else:
                rep.unsure(key + ":same", "points not comparable", w)
            x = xs[0]
            s = arr.shape(x)
            want = (num(n), num(d))
            if s is not None and len(s) == 2 and all(equal3(a, b) for a, b in zip(s, want)):
                rep.ok(key + ":count", "nsamples points of the dimension of p", w)
            elif s is not None and (len(s) != 2 or any(equal3(a, b) is False for a, b in zip(s, want))):
                rep.bad(key + ":count", "points have shape %s, expected (nsamples, dims)" % (tuple(show(z) for z in s),), w)
            else:
                rep.unsure(key + ":count", "shape of the points unknown", w)
            box(rep, key + ":support", r, x, n, d, w)
            settle(rep, key + ":stored", r, value(r.t, (), {}), value(r.stored, (), {}), "the value returned is the value stored", w)
            functions(rep, r)
    rep.guard(name + ".compute", go)


def box(rep, key, r, x, n, d, w):
    """x ~ U(low, high) of the support of p: affine in one uniform variate per entry, ends on the two corners of the support"""
    from .dists import degree
    sup = r.it.deref(r.st, r.it.method(r.st, r.pd, "support", []))
    for i in range(n):
        for j in range(d):
            k = "%s:%d,%d" % (key, i, j)
            try:
                v = value(x, (num(i), num(j)), {})
                lo, hi = value(sup, (ZERO, num(j)), {}), value(sup, (ONE, num(j)), {})
            except Unknown as e:
                rep.unsure(k, str(e), w)
                continue
            us = [y for y in subterms(v) if y.op == "at" and y.args[0].op in ("rand", "randlike")] + \
                 [y for y in subterms(v) if y.op == "rand01"]
            us = list(dict.fromkeys(us))
            if len(us) != 1 or degree(v, us[0]) != 1:
                rep.unsure(k, "not an affine image of one uniform variate: %s" % show(v)[:160], w)
                continue
            u = us[0]
            if u.op == "at" and tuple(u.args[1:]) != (num(i), num(j)):
                rep.bad(k, "entry (%d, %d) reuses the variate of another entry: %s" % (i, j, show(u)), w)
                continue
            e = [subst(v, {u: ZERO}), subst(v, {u: ONE})]
            for g in ((lo, hi), (hi, lo)):
                c = [compare(p, q) for p, q in zip(e, g)]
                if c == ["eq", "eq"]:
                    rep.ok(k, "uniform over the support of p", w)
                    break
            else:
                if "unknown" in c or any(residue(q) for q in e):
                    rep.unsure(k, "range %s not comparable" % [show(q)[:80] for q in e], w)
                else:
                    rep.bad(k, "points range over [%s, %s], the support of p is [%s, %s]" % tuple(show(q)[:80] for q in e + [lo, hi]), w)


def C31(rep):
    rep.rule = ("JSD value and stored value equal (KL(P|M) + KL(Q|M)) / (2 log 2), M the average, over the points where both "
                "densities are positive and not NaN, for every pattern of zero and NaN points")
    rep.assumptions = ["exact real arithmetic", "point counts and dimensions instantiated at 1..4 and 1..3"]
    divergence(rep, "CJSDivergence", ("in", "p0", "q0", "both", "pnan", "qnan", "nan0", "tiny"), pr_regime, jsd_value, [(2, 1), (3, 2), (4, 1)])
    numeric(rep, "CJSDivergence", lambda S, r: jsd_value(S))
    again(rep, "CJSDivergence", pr_regime, lambda S, r: jsd_value(S))
    computes(rep, "CJSDivergence")


# ------------------------------------------------------------------ C32
def evmse_value(S, r):
    P, Q = [p for p, _q in S], [q for _p, q in S]
    want = ZERO
    for j in range(r.d):
        ep = div(add(*[mul(P[i], at(r.xs, i, j)) for i in range(r.n)]), add(*P))
        eq_ = div(add(*[mul(Q[i], at(r.xs, i, j)) for i in range(r.n)]), add(*Q))
        want = add(want, power(sub(ep, eq_), num(2)))
    return want


def C32(rep):
    rep.rule = "EVMSE value and stored value equal sum_j (E_P x_j - E_Q x_j)^2 with self-normalised densities"
    rep.assumptions = ["exact real arithmetic", "point counts and dimensions instantiated at 1..4 and 1..3"]
    for n, d in [(1, 1), (2, 1), (3, 2), (2, 3)]:
        def go(n=n, d=d):
            r = Div("CExpectedValueMSE", n, d)
            w = where("CExpectedValueMSE", "compute_from_samples")
            for pt in patterns(n, ("in", "p0", "q0"), False):
                s, _S = pr_regime(r, pt)
                P = [s[at(r.arrs["p", "prob"], i)] for i in range(n)]
                Q = [s[at(r.arrs["q", "prob"], i)] for i in range(n)]
                if all(z is ZERO for z in P) or all(z is ZERO for z in Q):
                    continue
                want = evmse_value(list(zip(P, Q)), r)
                k = "CExpectedValueMSE:n%d:d%d:%s" % (n, d, ",".join(pt))
                settle(rep, k, r, value(r.t, (), s), want, "EVMSE with points (%s)" % ", ".join(pt), w)
                settle(rep, k + ":stored", r, value(r.stored, (), s), want, "EVMSE stored value", w)
            functions(rep, r)
        rep.guard("CExpectedValueMSE:n%d:d%d" % (n, d), go)
    numeric(rep, "CExpectedValueMSE", evmse_value)
    again(rep, "CExpectedValueMSE", pr_regime, evmse_value)
    computes(rep, "CExpectedValueMSE")


# ------------------------------------------------------------------ C33
class Seq:
    """calls from outside on one metric object; readings of the outside world carry the number of their call"""

    def __init__(self, name):
        self.it = Interp(prog(), adt_dists=False, dim=ONE)
        self.st = State()
        self.name = name
        self.o = self.it.instantiate(self.st, cls(name), [], {})
        self.ctor = self.val()
        self.n = 0

    def val(self):
        return self.it.deref(self.st, self.it.getattr(self.st, self.o, "value"))

    def __call__(self, m, args=(), kw=None):
        self.n += 1
        self.it.salt = "<%d>" % self.n
        r = self.it.method(self.st, self.o, m, list(args), kw or {})
        self.it.salt = ""
        return self.it.deref(self.st, r) if r is not None else NONE


def saltof(t):
    """the calls a term reads the outside world in"""
    out = set()
    for x in subterms(t):
        if x.op == "key" and isinstance(x.args[0], str) and x.args[0].startswith("<"):
            out.add(int(x.args[0][1:x.args[0].index(">")]))
    return out


def readings(v):
    """v = sum of coefficient * reading + rest: {call: [(coefficient, what)]}, rest; None when not linear"""
    out, rest = {}, ZERO
    for m, c in poly_of(v).items():
        t = from_poly({m: c})
        s = saltof(t)
        if not s:
            rest = add(rest, t)
            continue
        hot = [(a, e) for a, e in m if saltof(a)]
        if len(hot) != 1 or hot[0][1] != 1 or len(s) != 1:
            return None
        coef = from_poly({tuple((a, e) for a, e in m if a is not hot[0][0]): c})
        out.setdefault(s.pop(), []).append((coef, what(hot[0][0])))
    return out, rest


def what(t):
    """the reading with its place in the program taken out"""
    return tm_map(t, lambda x: mk("key") if x.op == "key" else None)


def tm_map(t, f):
    from ..terms import mapterm
    return mapterm(t, f)


ARITH = {"truthy", "poly", "ite", "maximum", "minimum", "gt0", "eq0", "and", "or", "not", "abs", "floor", "exp", "log", "isnan", "isclose"}


def leaves(t, out):
    """the readings a term depends on: {call: {reading}}"""
    if not isinstance(t, T):
        return out
    if t.op not in ARITH:
        for n in saltof(t) or ():
            out.setdefault(n, set()).add(t)
        return out
    for x in subterms(t):
        if x is not t and x.op not in ARITH and saltof(x) and not any(x is not y and x in set(subterms(y)) for y in subterms(t)
                                                                      if y.op not in ARITH and y is not x):
            for n in saltof(x):
                out.setdefault(n, set()).add(x)
    return out


def curved(rep, k, name, vs, pairs, w):
    """a value that is no linear combination of readings: look for readings at which it is not the sum over the pairs"""
    from .. import wit
    fixed = {}
    vs = [tm_map(v, lambda x: fixed.setdefault(x, sym("fixed%d" % len(fixed), kind="num", rank=0))
                 if x.op not in ARITH and x.op not in ("num", "sym") and not saltof(x) else None) for v in vs]
    lv = {}
    for v in vs:
        leaves(v, lv)
    calls = {z for p in pairs for z in p}
    if any(len(lv.get(z, ())) != 1 for z in pairs[0]):
        return False
    if any(len(x) > 1 for x in lv.values()):
        return False
    tot, s, rd = ZERO, {}, {}
    for z in sorted(set(lv) | calls):       # the clock never runs backwards
        step = pos("rd%d" % z)
        tot = add(tot, step)
        rd[z] = tot if name == "CElapsedTime" else step
        if z in lv:
            s[next(iter(lv[z]))] = rd[z]
    a, b = (next(iter(lv[z])) for z in pairs[0])
    base = subst(vs[0], {a: ONE, b: ONE})
    slope = sub(subst(vs[0], {a: ONE, b: num(2)}), base)
    hit = False
    for nm, v, ps in (("one pair", vs[0], pairs[:1]), ("two pairs", vs[1], pairs[:2]), ("three pairs", vs[2], pairs[:3]),
                      ("after a reset", vs[3], pairs[3:])):
        want = scale(base, len(ps))
        for p, z in ps:
            want = add(want, mul(slope, sub(rd[z], rd[p])))
        hit2 = wit.separate(subst(v, s), want)
        if hit2:
            rep.bad("%s:%s" % (k, nm), "%s: the value is not the sum over the pairs of what is read at the end minus at the begin (for "
                    "some readings %s instead of %s): %s" % (nm, dists.nstr(hit2[0]), dists.nstr(hit2[1]), show(v)[:200]), w)
            hit = True
    return hit


METRICS = ("CElapsedTime", "CMemoryUsage", "CKLDivergence", "CJSDivergence", "CExpectedValueMSE")


def C33(rep):
    rep.rule = ("after the call sequences reset/begin/end/read the reported value is sum over pairs of s*(reading at end - reading "
                "at begin) + a constant, with one s and one constant; reading changes nothing; reset gives the constructed value")
    rep.assumptions = ["a reading of the clock or the heap is a free symbol per call"]
    for name in METRICS[:2]:
        rep.guard(name, lambda name=name: perf(rep, name))
    for name in METRICS[2:]:
        rep.guard(name, lambda name=name: reset_div(rep, name))


def perf(rep, name):
    q = Seq(name)
    w = where(name, "post")
    k = name
    same(rep, k + ":ctor", q.ctor, ZERO, "a new metric reports nothing", where(name, "__init__"))
    q("reset")
    same(rep, k + ":reset first", q.val(), q.ctor, "reset gives the constructed value", where(name, "reset"))
    q("pre"); a = q.n
    q("post"); b = q.n
    v1 = q("compute")
    v1b = q("compute")
    same(rep, k + ":read twice", v1b, v1, "reading twice reports the same", where(name, "compute"))
    q("pre"); c = q.n
    q("compute")
    q("post"); d = q.n
    v2 = q("compute")
    q("pre"); e = q.n
    q("post"); f = q.n
    v3 = q("compute")
    q("reset")
    v0 = q("compute")
    same(rep, k + ":reset", v0, q.ctor, "reset gives the constructed value", where(name, "reset"))
    same(rep, k + ":reset value", q.val(), q.ctor, "reset restores the value attribute", where(name, "reset"))
    q("pre"); g = q.n
    q("post"); h = q.n
    v4 = q("compute")
    r = [readings(x) for x in (v1, v2, v3, v4)]
    if any(x is None or is_opaque_but(x[1]) for x in r):
        if curved(rep, k, name, (v1, v2, v3, v4), ((a, b), (c, d), (e, f), (g, h)), w):
            return
        rep.unsure(k + ":intervals", "value is not a sum of readings: %s" % show(v1)[:300], w)
        return
    ones = []
    for nm, (got, rest), pairs in (("one pair", r[0], [(a, b)]), ("two pairs", r[1], [(a, b), (c, d)]),
                                   ("three pairs", r[2], [(a, b), (c, d), (e, f)]), ("after a reset", r[3], [(g, h)])):
        key = "%s:%s" % (k, nm)
        bad = None
        if set(got) - {z for p in pairs for z in p}:
            bad = "readings taken outside the begin/end pairs count"
        scales, kinds = [], []
        for p, z in pairs:
            if not bad and (len(got.get(p, ())) != 1 or len(got.get(z, ())) != 1):
                bad = "a begin/end pair contributes %d begin and %d end readings" % (len(got.get(p, ())), len(got.get(z, ())))
            if not bad:
                (ca, wa), (cb, wb) = got[p][0], got[z][0]
                scales.append(cb)
                kinds += [wa, wb]
                if compare(add(ca, cb), ZERO) == "ne" or gt0(cb) is FALSE:
                    bad = "a pair counts %s * end %s %s * begin" % (show(cb), "+", show(ca))
        if not bad and any(compare(x, scales[0]) == "ne" for x in scales):
            bad = "pairs are not weighed alike"
        if not bad and any(x is not kinds[0] for x in kinds):
            bad = "begin and end read different things: %s" % ", ".join(sorted({show(x)[:80] for x in kinds}))
        if bad:
            rep.bad(key, "%s: %s (value %s)" % (nm, bad, show(v1)[:200]), w)
        else:
            rep.ok(key, "%s: sum of end minus begin" % nm, w)
            ones.append((len(pairs), rest))
    for n, rest in ones[1:]:
        if ones[0][0] == 1:
            same(rep, "%s:constant:%d" % (k, n), rest, scale(ones[0][1], n), "each pair is corrected by the same amount", w)
    rep.functions |= set(q.it.functions_seen)


def is_opaque_but(t):
    return any(x.op == "opaque" for x in subterms(t))


def same(rep, key, got, want, msg, w):
    if not isinstance(got, T) or not isinstance(want, T):
        rep.unsure(key, "%s: no number" % msg, w)
        return
    if got is want:
        rep.ok(key, msg, w)
        return
    c = compare(got, want)
    if c == "eq":
        rep.ok(key, msg, w)
    elif c == "ne" and not any(x.op == "opaque" for x in subterms(got)) or plain(got, want):
        rep.bad(key, "not so: %s -- it is %s instead of %s" % (msg, show(got)[:200], show(want)[:120]), w)
    else:
        rep.unsure(key, "%s: %s against %s" % (msg, show(got)[:200], show(want)[:120]), w)


def plain(got, want):
    """a number that depends on readings against one that does not"""
    return is_num(want) and bool(saltof(got)) and readings(got) is not None and bool(readings(got)[0]) and \
        not any(x.op == "opaque" for x in subterms(got))


def reset_div(rep, name):
    n, d = 2, 1
    r = Div(name, n, d)
    w = where(name, "reset")
    same(rep, name + ":ctor", r.v0, ZERO, "a new metric reports nothing", where(name, "__init__"))
    for m in ("pre", "post"):
        before = r.it.deref(r.st, r.it.getattr(r.st, r.o, "value"))
        r.it.method(r.st, r.o, m, [])
        same(rep, "%s:%s" % (name, m), r.it.deref(r.st, r.it.getattr(r.st, r.o, "value")), before,
             "%s leaves the value alone" % m, where(name, m))
    r.it.method(r.st, r.o, "reset", [])
    same(rep, name + ":reset", r.it.deref(r.st, r.it.getattr(r.st, r.o, "value")), r.v0, "reset gives the constructed value", w)
    r2 = r.it.deref(r.st, r.it.method(r.st, r.o, "compute_from_samples", [r.pd, r.qd, r.it.box(r.st, r.xs)]))
    pt = ("in",) * n
    s, S = pr_regime(r, pt)
    c = compare(value(r2, (), s), value(r.t, (), s))
    if c == "eq":
        rep.ok(name + ":again", "the value after a reset does not depend on earlier computations", w)
    elif c == "ne":
        rep.bad(name + ":again", "the same computation after a reset gives %s, before %s" % (show(r2)[:150], show(r.t)[:150]), w)
    else:
        rep.unsure(name + ":again", "not comparable", w)
    functions(rep, r)


# ------------------------------------------------------------------ C53
def C53(rep):
    rep.rule = ("splitting T = 3600 H + 60 M + S, H >= 0, M in 0..59 whole, S in [0, 60), gives (H, M, S) by the algebra of "
                "floor and remainder")
    rep.assumptions = ["exact real arithmetic"]
    fs = [f for f in prog().functions() if f.name == "time_to_hms"]
    if not fs:
        raise Anchor("time_to_hms not found")
    f = fs[0]
    w = "%s time_to_hms" % f.mod.rel if hasattr(f.mod, "rel") else "time_to_hms"

    def go():
        it = Interp(prog(), adt_dists=False, dim=ONE)
        st = State()
        x = pos("T")
        r = it.call(st, Fn(f), [x], {})
        rep.functions |= set(it.functions_seen)
        parts = list(r.items) if isinstance(r, Tup) else None
        if parts is None:
            t = it.deref(st, r)
            parts = [arr.index(t, num(i)) for i in range(3)] if arr.shape(t) == (num(3),) else None
        if parts is None or len(parts) != 3:
            rep.unsure("time_to_hms", "does not return three numbers", w)
            return
        H = sym("H", kind="num", rank=0, int=True, nonneg=True)
        M = sym("M", kind="num", rank=0, int=True, rng=(Fraction(-1), Fraction(60)))
        S = rng("S", 0, 60)
        for nm, h, m, s in (("general", H, M, S), ("whole minutes", H, M, ZERO), ("under an hour", ZERO, M, S),
                            ("under a minute", ZERO, ZERO, S), ("nothing", ZERO, ZERO, ZERO), ("whole hours", H, ZERO, ZERO),
                            ("over a day", add(H, num(24)), M, S), ("over a month", add(H, num(1000)), M, S)):
            tot = add(scale(h, 3600), scale(m, 60), s)
            for k, p, want in zip(("hours", "minutes", "seconds"), parts, (h, m, s)):
                got = subst(it.deref(st, p), {x: tot})
                settle(rep, "%s:%s" % (nm, k), None, got, want, "%s of %s" % (k, nm), w)
    rep.guard("time_to_hms", go)


CHECKS = {"C30": C30, "C31": C31, "C32": C32, "C33": C33, "C53": C53}
