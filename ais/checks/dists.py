"""Distributions: C20 C21 C23 C24 C25 C26 C27 C28.

Each density is interpreted abstractly on symbolic parameters and N symbolic points (N free; dimensions and component
counts instantiated at 1..3), its value at point i is resolved to a scalar term and compared with the documented formula
under a set of regimes (substitutions that put the point inside, outside or on the border of the support)."""
import itertools
from fractions import Fraction
from ..terms import *
from ..vals import *
from ..interp import Interp
from ..src import Program
from .. import arr, elem, wit
from ..elem import El, Unknown, compare
from ..npsem import FMAX, ADT_CLASSES
from ..report import Anchor

N = sym("N", kind="num", int=True, nonneg=True, rank=0)
I = sym("i", kind="num", int=True, nonneg=True, rank=0)
NINF = neg(INF)
TWO = num(2)
HALF = num(Fraction(1, 2))
_prog = []


def prog():
    if not _prog:
        _prog.append(Program())
    return _prog[0]


def A(n, *sh, **k):
    t = sym(n + "".join(":" + (str(s.args[0]) if s.op in ("num", "sym") else "?") for s in sh))
    META[t] = {"shape": tuple(sh), "kind": "arr", **k}
    return t


def pos(n):
    return sym(n, kind="num", rank=0, pos=True)


def rng(n, lo, hi):
    return sym(n, kind="num", rank=0, rng=(Fraction(lo), Fraction(hi)))


def at(b, *i):
    return elem.at(b, *[x if isinstance(x, T) else num(x) for x in i])


class Case:
    """one distribution at one dimension"""

    def __init__(self, name, d, params, logd=None, regimes=(), support=None, setup=None, tag="", sampler=True, cls=None,
                 adt=False, dim=None):
        self.name, self.d, self.params, self.logd, self.regimes = name, d, params, logd, regimes
        self.support, self.setup, self.tag, self.sampler = support, setup, tag, sampler
        self.cls = cls or name
        self.box = support
        self.key = name + tag + (":d%d" % d if d else "")


# ------------------------------------------------------------------ specifications
def x_(d):
    return A("x", N, num(d))


def sumsq(xs):
    return add(*[mul(x, x) for x in xs]) if xs else ZERO


def normal_logd(m, S, d, x, sub=None):
    """-d/2 log 2pi - 1/2 log det S - 1/2 (x-m)' S^-1 (x-m)"""
    E = El(sub)
    df = [sub_(at(x, I, j), at(m, j)) for j in range(d)]
    q = ZERO
    for j in range(d):
        for k in range(d):
            q = add(q, mul(df[j], E(mk("inv", S), (num(j), num(k))), df[k]))
    return add(scale(mul(num(d), add(log(num(2)), log(PI))), Fraction(-1, 2)), scale(log(E(mk("det", S))), Fraction(-1, 2)),
               scale(q, Fraction(-1, 2)))


sub_ = sub


def outside(base, d, mkout):
    """one regime per dimension and side"""
    out = []
    for j in range(d):
        for side in ("below", "above"):
            m = mkout(j, side)
            if m is not None:
                s = dict(base)
                s.update(m)
                out.append(("dim %d %s the support" % (j, side), s, NINF))
    return out


def uniform_case(d, one=False, moved=False):
    if moved:
        k, c2 = uniform_case(d), A("c2", num(d))
        m = {A("c", num(d)): c2}
        k.regimes = [(nm, {subst(a, m): subst(b, m) for a, b in s.items()}, want) for nm, s, want in k.regimes]
        k.box = [[subst(v, m) for v in row] for row in k.support]
        k.support, k.tag = None, ":moved"
        k.setup = relocate(c2)
        k.key = k.name + k.tag + ":d%d" % d
        return k
    c, r = A("c", num(d)), A("r", num(1 if one else d), pos=True)
    x = x_(d)
    inside = {}
    vol = ZERO
    if not one:
        for j in range(d):
            p, q = pos("p%d" % j), pos("q%d" % j)
            inside[at(r, j)] = scale(add(p, q), Fraction(1, 2))
            inside[at(x, I, j)] = add(at(c, j), scale(sub(p, q), Fraction(1, 2)))
    else:
        # every point of the open cube is a positive combination of its corners
        ps = {b: pos("p" + "".join(map(str, b))) for b in itertools.product((0, 1), repeat=d)}
        inside[at(r, 0)] = add(*ps.values())
        for j in range(d):
            inside[at(x, I, j)] = add(at(c, j), *[p if b[j] else neg(p) for b, p in ps.items()])
    lv = add(*[log(scale(at(r, 0 if one else j), 2)) for j in range(d)])

    def rj(j):
        return at(r, 0 if one else j)

    def mkout(j, side):
        p = pos("o%d" % j)
        return {at(x, I, j): add(at(c, j), neg(add(rj(j), p)) if side == "below" else add(rj(j), p))}
    regs = [("inside the support", inside, None)] + outside({}, d, mkout)
    border = []
    for j in range(d):
        for sg, nm in ((1, "upper"), (-1, "lower")):
            s = dict(inside) if not one else {}
            s[at(x, I, j)] = add(at(c, j), scale(s.get(rj(j), rj(j)), sg))
            border.append(("on the %s border of dim %d" % (nm, j), s, "border"))

    def logd(sub):
        E = El(sub)
        return neg(add(*[log(scale(E(r, (num(0 if one else j),)), 2)) for j in range(d)]))
    sup = [[sub_(at(c, j), rj(j)) for j in range(d)], [add(at(c, j), rj(j)) for j in range(d)]]
    return Case("CMultivariateUniform", d, {"center": c, "radius": r}, logd, regs + border, sup, tag=":one-radius" if one else "")


def normal_case(d, moved=False):
    m, S = A("m", num(d)), A("S", num(d), num(d), sym2=True)
    m2, S2 = A("m2", num(d)), A("S2", num(d), num(d), sym2=True)
    x = x_(d)
    mm, SS = (m2, S2) if moved else (m, S)

    def logd(sub):
        return normal_logd(mm, SS, d, x, sub)
    sup = [[sub_(at(m, j), scale(power(at(S, j, j), HALF), 6)) for j in range(d)],
           [add(at(m, j), scale(power(at(S, j, j), HALF), 6)) for j in range(d)]]

    def setup(it, st, o):
        it.method(st, o, "set_moments", [it.box(st, m2), it.box(st, S2)])
    return Case("CMultivariateNormal", d, {"mean": m, "sigma": S}, logd, [("anywhere", {}, None)], None if moved else sup,
                setup=setup if moved else None, tag=":set_moments" if moved else "")


def exp_case(d, moved=False):
    m, m2 = A("m", num(d), pos=True), A("m2", num(d), pos=True)
    mm = m2 if moved else m
    x = x_(d)
    inside = {at(x, I, j): pos("p%d" % j) for j in range(d)}

    def logd(sub):
        return add(*[add(neg(log(at(mm, j))), neg(div(pos("p%d" % j), at(mm, j)))) for j in range(d)])

    def mkout(j, side):
        return {at(x, I, j): neg(pos("o%d" % j))} if side == "below" else None
    regs = [("inside the support", inside, None)] + outside({}, d, mkout) + outside(
        inside, d, lambda j, s: mkout(j, s) if d > 1 else None)
    border = []
    for j in range(d):
        s = dict(inside)
        s[at(x, I, j)] = ZERO
        border.append(("on the lower border of dim %d" % j, s, "border"))

    def setup(it, st, o):
        it.method(st, o, "set_moments", [it.box(st, m2)])
    sup = [[ZERO] * d, [scale(at(m, j), 4) for j in range(d)]]
    return Case("CMultivariateExponential", d, {"mean": m}, logd, regs + border, sup if not moved else None,
                setup=setup if moved else None, tag=":set_moments" if moved else "")


def relocate(c2):
    """the location is changed after construction"""
    def setup(it, st, o):
        it.setattr(st, o, "loc", it.box(st, c2))
    return setup


def delta_case(d, moved=False):
    c, s = A("c", num(d)), A("sup", num(2), num(d))
    loc, x = (A("c2", num(d)) if moved else c), x_(d)
    here = {at(x, I, j): at(loc, j) for j in range(d)}
    regs = [("at the location", here, INF), ("anywhere", {}, "border")]
    for j in range(d):
        for sg, nm in ((1, "above"), (-1, "below")):
            s1 = dict(here)
            s1[at(x, I, j)] = add(at(loc, j), scale(pos("far%d" % j), sg))
            regs.append(("far %s the location in dim %d" % (nm, j), s1, NINF))
    return Case("CMultivariateDelta", d, {"center": c, "support": s}, lambda sub: INF, regs,
                None if moved else [[at(s, a, j) for j in range(d)] for a in range(2)],
                setup=relocate(A("c2", num(d))) if moved else None, tag=":moved" if moved else "")


def apart(t):
    """nothing is close to a location it is far from"""
    def f(x):
        if x.op == "isclose":
            d = sub(x.args[0], x.args[1])
            if d is ZERO:
                return TRUE
            if d.op == "sym" and d.args[0].startswith("far") or neg(d).op == "sym" and neg(d).args[0].startswith("far"):
                return FALSE
        return None
    return mapterm(t, f) if has_op(t, {"isclose"}) else t


def benchden():
    x = x_(1)
    X = at(x, I, 0)
    t = rng("t0", 0, 1)
    p = pos("p0")
    out = []
    out.append(Case("BenchDenUniform", 1, {}, lambda s: ZERO,
                    [("inside the support", {X: t}, None), ("below the support", {X: neg(p)}, NINF),
                     ("above the support", {X: add(ONE, p)}, NINF), ("on the lower border", {X: ZERO}, "border"),
                     ("on the upper border", {X: ONE}, "border")], [[ZERO], [ONE]]))
    out.append(Case("BenchDenExponential", 1, {}, lambda s: neg(p),
                    [("inside the support", {X: p}, None), ("below the support", {X: neg(p)}, NINF),
                     ("on the lower border", {X: ZERO}, "border")], "zero-lower"))
    out.append(Case("BenchDenMaxwell", 1, {}, lambda s: sub(log(p), scale(mul(p, p), Fraction(1, 2))),
                    [("inside the support", {X: p}, None), ("below the support", {X: neg(p)}, NINF),
                     ("on the lower border", {X: ZERO}, "border")], "zero-lower", sampler=False))
    out.append(Case("BenchDenLaplace", 1, {}, lambda s: sub(neg(log(num(2))), p),
                    [("above zero", {X: p}, None), ("below zero", {X: neg(p)}, None),
                     ("at zero", {X: ZERO}, "border")], "ordered", sampler=False))
    out.append(Case("BenchDenSymmetricPareto", 1, {}, lambda s: neg(add(log(num(4)), scale(log(add(ONE, p)), Fraction(3, 2)))),
                    [("above zero", {X: p}, None), ("below zero", {X: neg(p)}, None)], "ordered", sampler=False))
    return out


def banana():
    x = x_(2)
    a, b = at(x, I, 0), at(x, I, 1)
    k = num(Fraction(3, 100))
    v = add(b, mul(k, sub(mul(a, a), num(100))))
    spec = scale(add(mul(k, a, a), mul(v, v)), Fraction(-1, 2))
    return Case("Banana2D", 2, {}, lambda s: spec, [("anywhere", {}, None)], "ordered", sampler=False)


def listed_supports():
    """the documented way to give a support: a list of two arrays; and as one array"""
    out = []
    for d in (1, 2):
        for how in ("list", "array"):
            for mkc in (normal_case, exp_case, delta_case):
                c = mkc(d)
                lo, hi, s = A("slo", num(d)), A("shi", num(d)), A("sup", num(2), num(d))
                if how == "list":
                    c.params = dict(c.params, support=lambda it, st, lo=lo, hi=hi: it.mklist(st, [it.box(st, lo), it.box(st, hi)]))
                    c.support = [[at(lo, j) for j in range(d)], [at(hi, j) for j in range(d)]]
                else:
                    c.params = dict(c.params, support=s)
                    c.support = [[at(s, a, j) for j in range(d)] for a in range(2)]
                c.setup = None
                c.tag += ":support as a " + how
                c.key = c.key.replace(":d", ":given-" + how + ":d") if ":d" in c.key else c.key + ":given-" + how
                out.append(c)
    return out


def gmm_case(d, K, weights=True):
    ms, ss, w, s = A("ms", num(K), num(d)), A("ss", num(K), num(d), pos=True), A("w", num(K), pos=True), A("sup", num(2), num(d))
    x = x_(d)

    def logd(sub):
        tot = add(*[at(w, k) for k in range(K)]) if weights else num(K)
        out = ZERO
        for k in range(K):
            lg = ZERO
            for j in range(d):
                df = sub_(at(x, I, j), at(ms, k, j))
                lg = add(lg, scale(add(log(num(2)), log(PI), log(at(ss, k, j)), div(mul(df, df), at(ss, k, j))), Fraction(-1, 2)))
            out = add(out, mul(div(at(w, k) if weights else ONE, tot), exp(lg)))
        return log(out)
    ps = {"means": ms, "sigmas": ss, "support": s}
    if weights:
        ps["weights"] = w
    return Case("CGaussianMixtureModel", d, ps, logd, [("anywhere", nonan(w, K), None)],
                [[at(s, a, j) for j in range(d)] for a in range(2)], tag=":K%d%s" % (K, "" if weights else ":noweights"))


def nonan(w, K):
    return {mk("isnan", at(w, k)): FALSE for k in range(K)}


def comp(k):
    return sym("q%d" % k, kind="dist")


def mixture_models(K):
    return lambda it, st: it.mklist(st, [DVal(comp(k)) for k in range(K)])


def mixture_case(d, K, reset=False):
    w, s = A("w", num(K), pos=True), A("sup", num(2), num(d))
    w2 = A("w2", num(K), pos=True)
    x = x_(d)
    ww = w2 if reset else w

    def logd(sub):
        tot = add(*[at(ww, k) for k in range(K)])
        return log(add(*[mul(div(at(ww, k), tot), exp(at(mk("logp", comp(k), x), I))) for k in range(K)]))

    def setup(it, st, o):
        it.method(st, o, "set_weights", [it.box(st, w2)])
    return Case("CMixtureModel", d, {"models": mixture_models(K), "weights": w, "support": s, "dims": num(d)}, logd,
                [("anywhere", {**nonan(w, K), **nonan(w2, K)}, None)], [[at(s, a, j) for j in range(d)] for a in range(2)],
                setup=setup if reset else None, tag=":K%d%s" % (K, ":set_weights" if reset else ""))


def kernel_u(kind, u, inside):
    if kind == "kernel_normal":
        return mul(power(mul(num(2), PI), num(Fraction(-1, 2))), exp(scale(mul(u, u), Fraction(-1, 2))))
    if not inside:
        return ZERO
    if kind == "kernel_uniform":
        return num(Fraction(1, 2))
    if kind == "kernel_triangular":
        return sub(ONE, absv(u))
    if kind == "kernel_epanechnikov":
        return scale(sub(ONE, mul(u, u)), Fraction(3, 4))
    raise KeyError(kind)


KERNELS = ("kernel_normal", "kernel_uniform", "kernel_triangular", "kernel_epanechnikov")


def kernel_cases(d, kind):
    """CKernel(loc, bw, kernel): prod_j k((x_j - loc_j) bw_j) bw_j"""
    c, b = A("c", num(d)), A("bw", num(d), pos=True)
    x = x_(d)
    regs = []
    for nm, mkt, ins in (("inside", lambda j: rng("t%d" % j, 0, 1), True), ("inside, negative", lambda j: neg(rng("t%d" % j, 0, 1)), True)):
        s = {at(x, I, j): add(at(c, j), div(mkt(j), at(b, j))) for j in range(d)}
        v = ZERO
        for j in range(d):
            ku = kernel_u(kind, mkt(j), ins)
            v = add(v, log(ku), log(at(b, j)))
        regs.append((nm, s, v))
    if kind != "kernel_normal":
        for j in range(d):
            for sg, nm in ((1, "above"), (-1, "below")):
                s = {at(x, I, k): add(at(c, k), div(rng("t%d" % k, 0, 1), at(b, k))) for k in range(d)}
                s[at(x, I, j)] = add(at(c, j), div(scale(add(ONE, pos("o%d" % j)), sg), at(b, j)))
                regs.append(("dim %d %s the kernel" % (j, nm), s, NINF))
    else:
        s = {at(x, I, j): add(at(c, j), div(sym("u%d" % j, kind="num", rank=0), at(b, j))) for j in range(d)}
        v = ZERO
        for j in range(d):
            v = add(v, log(kernel_u(kind, sym("u%d" % j, kind="num", rank=0), True)), log(at(b, j)))
        regs = [("anywhere", s, v)]
    return regs, c, b


def kde_case(d, K):
    xs, w, s, b = A("xs", num(K), num(d)), A("w", num(K), pos=True), A("sup", num(2), num(d)), A("bw", num(d), pos=True)
    x = x_(d)

    def logd(sub):
        tot = add(*[at(w, k) for k in range(K)])
        out = ZERO
        for k in range(K):
            v = ONE
            for j in range(d):
                u = mul(sub_(at(x, I, j), at(xs, k, j)), at(b, j))
                v = mul(v, kernel_u("kernel_normal", u, True), at(b, j))
            out = add(out, mul(div(at(w, k), tot), v))
        return log(out)
    return Case("CKernelDensity", d, {"samples": xs, "weights": w, "support": s, "kernel_bw": b,
                                      "kernel_f": lambda it, st: Fn(prog().cls("CKernel").method("kernel_normal"))},
                logd, [("anywhere", nonan(w, K), None)], [[at(s, a, j) for j in range(d)] for a in range(2)], tag=":K%d" % K,
                sampler=False)


def nn_case(d):
    K = sym("K", kind="num", int=True, pos=True, rank=0)
    xs, w, s = A("xs", K, num(d)), A("w", K), A("sup", num(2), num(d))
    return Case("CNearestNeighbor", d, {"samples": xs, "weights": w, "support": s}, None, [("anywhere", {}, "border")],
                [[at(s, a, j) for j in range(d)] for a in range(2)])


def cases(deep=False):
    ds = (1, 2, 3) if deep else (1, 2)
    out = []
    for d in ds:
        out += [uniform_case(d), normal_case(d), normal_case(d, True), exp_case(d), exp_case(d, True), delta_case(d), nn_case(d)]
    out += [uniform_case(2, True), uniform_case(3, True), uniform_case(2, moved=True), delta_case(2, True)]
    out += benchden() + [banana()]
    out += [gmm_case(1, 2), gmm_case(2, 2), gmm_case(1, 3, False), mixture_case(1, 2), mixture_case(2, 3), mixture_case(2, 2, True),
            kde_case(1, 2), kde_case(2, 2)]
    if deep:
        out += [gmm_case(3, 3), mixture_case(3, 4), kde_case(3, 3)]
    return out


# ------------------------------------------------------------------ interpretation
class Run:
    def __init__(self, case, adt=()):
        self.case = case
        P = prog()
        cls = P.classes_by_name(case.cls) if hasattr(P, "classes_by_name") else P.cls(case.cls)
        if cls is None:
            raise Anchor("class %s not found" % case.cls)
        self.it = it = Interp(P, adt_dists=False, dim=num(case.d))
        it.adt_classes = {k: v for k, v in ADT_CLASSES.items() if k in adt}
        self.st = st = State()
        ps = {}
        for k, v in case.params.items():
            ps[const(k)] = v(it, st) if callable(v) else (it.box(st, v) if META.get(v, {}).get("kind") == "arr" else v)
        self.pd = it.mkdict(st, ps)
        given = {k: v for k, v in st.heap.items() if isinstance(v, (Cell, LRec))}
        self.o = it.instantiate(st, cls, [self.pd], {})
        self.altered = changed(given, st, it)
        if case.setup:
            self.use()
            case.setup(it, st, self.o)
        self.x = x_(case.d)
        self.x1 = A("x1", num(case.d))

    def use(self):
        """evaluations and draws before the change of parameters"""
        it, n = self.it, len(self.it.events)
        it.salt = "before:"
        for m, a in (("log_prob", A("before", N, num(self.case.d))), ("prob", A("before", N, num(self.case.d))), ("sample", num(2))):
            try:
                st = self.st.copy()
                it.method(st, self.o, m, [it.box(st, a) if m != "sample" else a])
                if changed(self.st.heap, st, it):
                    self.st.heap, self.st.pc = st.heap, st.pc
            except Dead:
                pass
        it.salt = ""
        del it.events[n:]

    def call(self, m, args):
        r = self.it.method(self.st, self.o, m, args)
        return self.it.deref(self.st, r)

    def dens(self, m, single=False):
        return self.call(m, [self.it.box(self.st, self.x1 if single else self.x)])


_RUNS = {}


def run(case):
    if case.key not in _RUNS:
        try:
            _RUNS[case.key] = Run(case)
        except Anchor:
            raise
        except Dead:
            _RUNS[case.key] = "dead"
        except Exception as e:
            _RUNS[case.key] = e
    r = _RUNS[case.key]
    if isinstance(r, Exception):
        raise r
    return r


def where(cls, m):
    c = prog().cls(cls)
    f = c.find(m) if c else None
    if f:
        owner, _k, th = f
        return "%s:%s %s.%s" % (owner.mod.rel if hasattr(owner, "mod") else "", getattr(getattr(th, "node", None), "lineno", "?"), owner.name, m)
    return cls + "." + m


def value(t, idx, s):
    """scalar term at idx under substitution s"""
    v = El(s)(t, idx)
    if s:
        v = apart(subst(v, s))
    return v


def settle(rep, key, r, got, want, what, w, logs=False):
    c = compare(got, want)
    d = wit.separate(got, want, atol="1e-8" if logs else "0") if got is not want else None
    if d is not None:
        rep.bad(key, "%s: the value is %s, expected %s (%s against %s at one point)" % (
            what, show(got)[:300], show(want)[:300], nstr(d[0]), nstr(d[1])), w)
    elif c == "eq":
        rep.ok(key, what, w)
    elif isnan(got) is TRUE and isnan(want) is not TRUE:
        rep.bad(key, "%s: the value is not a number (%s), expected %s" % (what, show(got)[:300], show(want)[:300]), w)
    elif c == "ne" and not residue(got):
        rep.bad(key, "%s: the value is %s, expected %s" % (what, show(got)[:300], show(want)[:300]), w)
    else:
        v, why = by_cases(got, want, atol="1e-8" if logs else "0")
        if v == "eq":
            rep.ok(key, what, w)
        elif v == "ne":
            rep.bad(key, "%s: when %s the value is another one than expected: %s, expected %s" % (what, why, show(got)[:300], show(want)[:300]), w)
        else:
            rep.unsure(key, "%s: cannot decide %s against %s" % (what, show(got)[:200], show(want)[:200]), w)


def twins(t):
    """comparisons of two leaves for equality: [(comparison, leaf, leaf)]"""
    out = []
    for x in subterms(t):
        if x.op != "eq0" or x.args[0].op != "poly" or len(x.args[0].args) != 2:
            continue
        (m, c), (n, e) = x.args[0].args
        if len(m) == len(n) == 1 and m[0][1] == n[0][1] == 1 and c == -e and all(y[0][0].op in ("at", "sym") for y in (m, n)):
            out.append((x, m[0][0], n[0][0]))
    return sorted(out, key=lambda y: show(y[0]))


def by_cases(a, b, atol="0", depth=4):
    """('eq' | 'ne' | 'unknown', when), the leaves compared with each other being the same or not"""
    tw = twins(a) + [x for x in twins(b) if x[0] not in subterms(a)]
    if not tw or not depth:
        if a is b:
            return "eq", ""
        c = compare(a, b)
        return ("eq", "") if c == "eq" else ("ne", "") if wit.separate(a, b, atol=atol) is not None else ("unknown", "")
    c, x, y = tw[0]
    v, why = by_cases(subst(a, {y: x}), subst(b, {y: x}), atol, depth - 1)
    if v == "ne":
        return "ne", "%s is %s%s" % (show(x), show(y), " and " + why if why else "")
    u, why = by_cases(subst(a, {c: FALSE}), subst(b, {c: FALSE}), atol, depth - 1)
    if u == "ne":
        return "ne", "%s is not %s%s" % (show(x), show(y), " and " + why if why else "")
    return ("eq", "") if u == v == "eq" else ("unknown", "")


def nstr(x):
    return wit.mpmath.nstr(x, 6)


def residue(t):
    """operations in the way of a definite comparison"""
    return is_opaque(t) or has_op(t, {"ite", "maximum", "minimum", "forall", "exists", "maxover", "minover", "mstore", "quadat", "lsum", "undef",
                                      "powneg"})


def functions(rep, r):
    rep.functions |= set(getattr(r.it, "functions_seen", ()))


def each(rep, cs, fn):
    for c in cs:
        def go(c=c):
            r = run(c)
            if r == "dead":
                rep.unsure(c.key + ":construction", "construction does not complete")
                return
            fn(c, r)
            functions(rep, r)
        rep.guard(c.key, go)


# ------------------------------------------------------------------ C21
def C21(rep):
    rep.rule = ("the scalar term of log_prob/prob at point i equals the documented formula under every regime "
                "(inside/outside the support), N symbolic, d and component count instantiated")

    def chk(c, r):
        if c.logd is None:
            return
        for m in ("log_prob", "prob"):
            t = r.dens(m)
            w = where(c.cls, m)
            for nm, s, want in c.regimes:
                if want == "border":
                    continue
                key = "%s:%s:%s" % (c.key, m, nm)
                try:
                    got = value(t, (I,), s)
                except Unknown as e:
                    rep.unsure(key, "value not resolved: %s" % e, w)
                    continue
                ld = c.logd(s) if want is None else want
                ld = subst(ld, s) if s else ld
                settle(rep, key, r, got, ld if m == "log_prob" else exp(ld), "%s of %s, %s" % (m, c.name, nm), w, m == "log_prob")
        batches(rep, c, r)
    each(rep, cases(rep.tier == "thorough"), chk)
    kernels(rep)


def batches(rep, c, r):
    """two points of one batch, one inside and one outside the support: each gets its own value"""
    ins = [g for g in c.regimes if g[2] is None and g[1]]
    outs = [g for g in c.regimes if g[2] is NINF]
    if len(ins) != 1 or not outs:
        return
    xb, x = A("xb", TWO, num(c.d)), x_(c.d)
    _nm, s_in, _w = ins[0]
    for m in ("log_prob", "prob"):
        t = None
        w = where(c.cls, m)
        for nm, s_out, want in outs[:2] + outs[-1:]:
            for row in (0, 1):
                key = "%s:%s:batch with point %d %s" % (c.key, m, row, nm)
                s = {}
                for src, q in ((s_out, row), (s_in, 1 - row)):
                    for k, v in src.items():
                        if k.op == "at" and k.args[0] is x:
                            k = at(xb, q, *k.args[2:])
                        s[k] = v
                s = {k: subst(v, {a: b for a, b in s.items() if a.args[0] is not xb}) for k, v in s.items()}
                try:
                    if t is None:
                        t = r.call(m, [r.it.box(r.st, xb)])
                    vals = [value(t, (num(q),), s) for q in (0, 1)]
                except Unknown as e:
                    rep.unsure(key, "value not resolved: %s" % e, w)
                    continue
                ld = subst(c.logd(s_in), s)
                for q in (0, 1):
                    e = want if q == row else ld
                    settle(rep, "%s:value %d" % (key, q), r, vals[q], e if m == "log_prob" else exp(e),
                           "%s of point %d, with point %d %s" % (m, q, row, nm), w, m == "log_prob")


def kernels(rep):
    P = prog()
    cls = P.cls("CKernel")
    if cls is None:
        raise Anchor("CKernel not found")
    for kind in KERNELS:
        if cls.method(kind) is None:
            raise Anchor("CKernel.%s not found" % kind)
        for d in (1, 2):
            def go(kind=kind, d=d):
                regs, c, b = kernel_cases(d, kind)
                it = Interp(P, adt_dists=False, dim=num(d))
                st = State()
                o = it.instantiate(st, cls, [it.box(st, c), it.box(st, b), Fn(cls.method(kind))], {})
                for m in ("prob", "log_prob"):
                    t = it.deref(st, it.method(st, o, m, [it.box(st, x_(d))]))
                    for nm, s, want in regs:
                        key = "CKernel.%s:d%d:%s:%s" % (kind, d, m, nm)
                        try:
                            got = value(t, (I,), s)
                        except Unknown as e:
                            rep.unsure(key, str(e))
                            continue
                        settle(rep, key, None, got, want if m == "log_prob" else exp(want), "%s of %s, %s" % (m, kind, nm),
                               where("CKernel", m), m == "log_prob")
                rep.functions |= set(it.functions_seen)
            rep.guard("CKernel.%s:d%d" % (kind, d), go)


# ------------------------------------------------------------------ C20
def C20(rep):
    rep.rule = "prob at point i is the same scalar term as exp of log_prob at point i, under every regime including the support borders"

    def chk(c, r):
        p, l = r.dens("prob"), r.dens("log_prob")
        w = where(c.cls, "prob")
        done = False
        for nm, s, want in list(c.regimes) + [("unrestricted", {}, "border")]:
            key = "%s:%s" % (c.key, nm)
            try:
                a, b = value(p, (I,), s), exp(value(l, (I,), s))
            except Unknown as e:
                if erase_equal(p, l):
                    rep.ok(key, "prob is exp of log_prob, as whole arrays", w)
                else:
                    rep.unsure(key, "value not resolved: %s" % e, w)
                continue
            if a is b or erase_equal(p, l):
                rep.ok(key, "prob and log_prob agree", w)
            else:
                settle(rep, key, r, a, b, "prob against exp(log_prob) of %s, %s" % (c.name, nm), w)
    each(rep, cases(rep.tier == "thorough"), chk)
    generic20(rep)
    from . import samplers
    samplers.exp_of_log(rep)


def erase_equal(p, l):
    return p is exp(l)


def generic20(rep):
    """densities handed to the base class, and a function with a noise model"""
    P = prog()
    base = P.cls("CDistribution")
    if base is None:
        raise Anchor("CDistribution not found")
    d = 2
    for given in ("likelihood_f", "loglikelihood_f"):
        def go(given=given):
            it = Interp(P, adt_dists=False, dim=num(d))
            st = State()
            q = DVal(comp(0))
            ps = {"type": const("given"), "family": const("given"), "dims": num(d), "support": it.box(st, A("sup", TWO, num(d))),
                  "likelihood_f": NONE, "loglikelihood_f": NONE}
            ps[given] = Meth(q, "prob" if given == "likelihood_f" else "log_prob")
            o = it.instantiate(st, base, [it.mkdict(st, {const(k): v for k, v in ps.items()})], {})
            x = x_(d)
            p, l = (it.deref(st, it.method(st, o, m, [it.box(st, x)])) for m in ("prob", "log_prob"))
            key = "CDistribution:only %s" % given
            w = where("CDistribution", "prob")
            want = at(mk("logp", comp(0), x), I)
            settle(rep, key + ":prob", None, value(p, (I,), {}), exp(want), "prob with only %s given" % given, w)
            settle(rep, key + ":log_prob", None, value(l, (I,), {}), want, "log_prob with only %s given" % given,
                   where("CDistribution", "log_prob"), True)
            rep.functions |= set(it.functions_seen)
        rep.guard("CDistribution:only %s" % given, go)
    noisy = P.cls("GenericNoisyFunction")
    if noisy is None:
        return

    def go():
        it = Interp(P, adt_dists=False, dim=num(d))
        st = State()
        ps = {"noise_model": DVal(comp(0)), "function": Meth(DVal(comp(1)), "prob"), "dims": num(d),
              "support": it.box(st, A("sup", TWO, num(d)))}
        o = it.instantiate(st, noisy, [it.mkdict(st, {const(k): v for k, v in ps.items()})], {})
        it.method(st, o, "condition", [it.box(st, A("y", num(d)))])
        x = x_(d)
        p, l = (it.deref(st, it.method(st, o, m, [it.box(st, x)])) for m in ("prob", "log_prob"))
        a, b = value(p, (I,), {}), exp(value(l, (I,), {}))
        settle(rep, "GenericNoisyFunction", None, a, b, "prob against exp(log_prob)", where("GenericNoisyFunction", "prob"))
        rep.functions |= set(it.functions_seen)
    rep.guard("GenericNoisyFunction", go)


# ------------------------------------------------------------------ C27
def rows_match(v1, v, d, m1):
    """replace density look-ups of the single point by the batch's look-up of the same row, where the points are the same"""
    def row(f):
        """(function, row elements) of an opaque density look-up"""
        at_ = f.op == "at"
        g = f.args[0] if at_ else f
        if g.op not in ("logp", "near"):
            return None
        p = g.args[-1]
        k = len(arr.shape(p) or ())
        if k == 0 or k > 2:
            return None
        i = (f.args[1],) if at_ and k == 2 else ()
        if k == 2 and not i:
            return None
        try:
            return g.op, g.args[:-1], tuple(El()(p, i + (num(j),)) for j in range(d))
        except Unknown:
            return None
    looks = {}
    for f in subterms(v):
        r = row(f)
        if r:
            looks[r] = f
    out = {}
    for f in subterms(v1):
        r = row(f)
        if r:
            r = (r[0], r[1], tuple(subst(e, m1) for e in r[2]))
            if r in looks:
                out[f] = looks[r]
    return subst(v1, out)


def C27(rep):
    rep.rule = "the result of evaluating N points has N entries, entry i reads only point i; a single point gives one entry, that of the batch"

    def chk(c, r):
        for m in ("prob", "log_prob"):
            w = where(c.cls, m)
            t = r.dens(m)
            key = "%s:%s:batch" % (c.key, m)
            s = arr.shape(t)
            if s is None or is_opaque(mk("tuple", *s)):
                rep.unsure(key, "shape not resolved", w)
            else:
                tot = ONE
                for x in s:
                    tot = mul(tot, x)
                if compare(tot, N) == "eq":
                    rep.ok(key, "N entries for N points", w)
                elif residue(tot) or any(x.op not in ("num", "sym", "poly") for x in s):
                    rep.unsure(key, "entries: %s" % show(tot), w)
                else:
                    rep.bad(key, "evaluating N points of dimension %d gives an array of shape (%s)" % (c.d, ", ".join(show(x) for x in s)), w)
            key = "%s:%s:rows" % (c.key, m)
            v = None
            try:
                v = El()(t, (I,))
                rows = {ix[0] for b, ixs in elem.leaves(v).items() for ix in ixs if b is r.x} | \
                       {ix[0] for b, ixs in elem.leaves(v).items() for ix in ixs if b.op in ("logp", "near") and b.args[-1] is r.x}
                whole = [x for x in subterms(v) if x is r.x] and not rows
                bad = [x for x in rows if x is not I]
                if bad and not is_opaque(v):
                    rep.bad(key, "entry i depends on point %s" % ", ".join(show(x) for x in bad), w)
                elif whole or is_opaque(v):
                    rep.unsure(key, "dependence on the points not resolved", w)
                else:
                    rep.ok(key, "entry i reads point i only", w)
            except Unknown as e:
                rep.unsure(key, "value not resolved: %s" % e, w)
            # a single point
            key = "%s:%s:single" % (c.key, m)
            n0 = len(r.it.events)
            try:
                t1 = r.dens(m, True)
            except Dead:
                rep.bad(key, "evaluating a single point cannot complete", w)
                continue
            s1 = arr.shape(t1)
            if s1 is None:
                rep.unsure(key, "shape not resolved", w)
                continue
            tot = ONE
            for x in s1:
                tot = mul(tot, x)
            if compare(tot, ONE) != "eq" or (len(s1) == 0):
                if residue(tot) or not all(is_num(x) for x in s1):
                    rep.unsure(key, "entries: %s" % show(tot), w)
                else:
                    rep.bad(key, "evaluating a single point gives shape (%s)" % ", ".join(show(x) for x in s1), w)
                continue
            try:
                v1 = El()(t1, (ZERO,) * len(s1))
                m1 = {}
                for j in range(c.d):
                    m1[at(r.x1, j)] = at(r.x, I, j)
                v1 = subst(v1, m1)
                if v is None:
                    rep.unsure(key, "batch value not resolved", w)
                elif v1 is v:
                    rep.ok(key, "single point valued as a batch of one", w)
                else:
                    v1 = rows_match(v1, v, c.d, m1)
                    settle(rep, key, r, v1, v, "single point against batch of one", w)
            except Unknown as e:
                rep.unsure(key, "value not resolved: %s" % e, w)
    each(rep, cases(rep.tier == "thorough"), chk)


# ------------------------------------------------------------------ C23
NS = sym("n", kind="num", int=True, pos=True, rank=0)


def C23(rep):
    rep.rule = "sample(n) has the shape (n, dims), n >= 1 symbolic, dims instantiated"

    def chk(c, r):
        key = "%s:sample" % (c.key if c.sampler else c.name)
        w = where(c.cls, "sample")
        r = adt_run(c)
        n0 = len(r.it.events)
        for what, args in (("n", [NS]), ("default", [])):
            try:
                t = r.call("sample", args)
            except Dead:
                if c.sampler:
                    rep.bad(key, "drawing samples cannot complete", w)
                else:
                    rep.ok(key, "%s declares no sampler" % c.name, w)
                return
            miss = [e for e in r.it.events[n0:] if e.kind == "noattr"]
            if miss:
                e = miss[0]
                if c.name in rep.__dict__.setdefault("said", set()):
                    return
                rep.said.add(c.name)
                rep.bad("%s:sample" % c.name, "drawing reads %s.%s, which does not exist" % (e.data["cls"].name, e.data["attr"]), w)
                return
            want = (NS if args else ONE, num(c.d))
            shape_is(rep, key + ":" + what, arr.shape(t), want, "sample(%s)" % (what if args else ""), w)
        functions(rep, r)
    each(rep, cases(rep.tier == "thorough"), chk)


def shape_is(rep, key, s, want, what, w):
    if s is None or any(is_opaque(x) for x in s):
        rep.unsure(key, "shape not resolved", w)
        return
    txt = "%s has shape (%s), expected (%s)" % (what, ", ".join(show(x) for x in s), ", ".join(show(x) for x in want))
    simple = all(x.op in ("num", "sym", "poly") and not any(y.op not in ("num", "sym", "poly") for y in subterms(x)) for x in s)
    if any(is_num(x) and x.args[0] < 0 for x in s):
        rep.unsure(key, txt, w)
    elif len(s) != len(want):
        (rep.bad if simple else rep.unsure)(key, txt, w)
    elif all(compare(a, b) == "eq" for a, b in zip(s, want)):
        rep.ok(key, txt.split(", expected")[0], w)
    else:
        (rep.bad if simple else rep.unsure)(key, txt, w)


_ADT = {}


def adt_run(c):
    """the Gaussian mixture over abstract normal components (its components are drawn through a symbolic index)"""
    if c.name != "CGaussianMixtureModel":
        return run(c)
    if c.key not in _ADT:
        _ADT[c.key] = Run(c, adt=("CMultivariateNormal",))
    return _ADT[c.key]


# ------------------------------------------------------------------ C22
def C22(rep):
    rep.rule = ("the law the sampler draws from has the same parameters as the density: elementwise comparison of the "
                "generator's parameters with the density's, for the uniform, normal, exponential and delta, and after set_moments")

    def chk(c, r):
        law = LAWS.get(c.name)
        if law is None:
            return
        w = where(c.cls, "sample")
        t = r.call("sample", [NS])
        law(rep, c, t, w)
    each(rep, cases(rep.tier == "thorough"), chk)


def law_box(lo, hi):
    def f(rep, c, t, w):
        for j in range(c.d):
            key = "%s:dim%d" % (c.key, j)
            try:
                v = El()(t, (I, num(j)))
            except Unknown as e:
                rep.unsure(key, str(e), w)
                continue
            us = [x for x in subterms(v) if x.op == "at" and x.args[0].op in ("rand", "randlike")] + \
                 [x for x in subterms(v) if x.op == "rand01"]
            us = list(dict.fromkeys(us))
            if len(us) != 1 or degree(v, us[0]) != 1:
                rep.unsure(key, "not an affine image of one uniform variate: %s" % show(v)[:200], w)
                continue
            u = us[0]
            if u.op == "at" and (u.args[1] is not I or u.args[-1] is not num(j)):
                rep.bad(key, "coordinate %d of sample i uses the variate %s" % (j, show(u)), w)
                continue
            ends = [subst(v, {u: ZERO}), subst(v, {u: ONE})]
            want = [lo(c, j), hi(c, j)]
            g = [compare(a, b) for a, b in zip(ends, want)]
            x = [compare(a, b) for a, b in zip(ends, reversed(want))]
            if g == ["eq", "eq"] or x == ["eq", "eq"]:
                rep.ok(key, "uniform over [%s, %s]" % tuple(show(q) for q in want), w)
            elif "unknown" in g or any(residue(q) for q in ends):
                rep.unsure(key, "box of the sampler not resolved", w)
            else:
                rep.bad(key, "draws from [%s, %s], the density lives on [%s, %s]" % tuple(show(q)[:80] for q in ends + want), w)
    return f


def degree(v, u):
    d = 0
    for m, c in poly_of(v).items():
        for a, e in m:
            if a is u:
                d = max(d, e)
            elif contains(a, u):
                return 99
    return d


def law_draw(kinds, pars):
    """the sample is one draw of a named law with the given parameters"""
    def f(rep, c, t, w):
        ds = [x for x in subterms(t) if x.op == "draw" and x.args[0].op == "dist"]
        ds = list(dict.fromkeys(ds))
        if c.name == "CMultivariateNormal" and (len(ds) != 1 or ds[0] is not t or ds[0].args[0].args[0] not in kinds):
            if affine_normal(rep, c, t, w):
                return
        if len(ds) != 1 or ds[0] is not t:
            rep.unsure(c.key, "the sample is not one draw of a library law: %s" % show(t)[:160], w)
            return
        d = ds[0].args[0]
        if d.args[0] not in kinds:
            rep.unsure(c.key, "law %s" % d.args[0], w)
            return
        for i, (nm, base, sh) in enumerate(pars(c)):
            got = d.args[1 + i]
            for ix in (() if not sh else [(a,) for a in range(sh[0])] if len(sh) == 1 else
                       [(a, b) for a in range(sh[0]) for b in range(sh[1])]):
                key = "%s:%s:%s" % (c.key, nm, ",".join(map(str, ix)))
                try:
                    v = El()(got, tuple(num(q) for q in ix))
                except Unknown as e:
                    rep.unsure(key, str(e), w)
                    continue
                settle(rep, key, None, v, base(*ix), "%s%s of the sampler" % (nm, list(ix)), w)
    return f


def affine_normal(rep, c, t, w):
    """every coordinate a sum of independent normal variates: mean and covariance follow"""
    (_n, mean, _s), (_n2, cov, _s2) = normal_pars(c)
    try:
        vs = [El()(t, (I, num(j))) for j in range(c.d)]
    except Unknown:
        return False
    zs = list(dict.fromkeys(x for v in vs for x in subterms(v) if x.op == "at" and x.args[0].op == "draw"))
    base = {z.args[0].args[0] for z in zs}
    if not zs or any(b.op != "dist" or b.args[0] not in ("np:standard_normal", "np:normal") for b in base) or \
            any(z.args[1] is not I for z in zs):
        return False
    if any(degree(v, z) > 1 for v in vs for z in zs):
        return False
    zero = {z: ZERO for z in zs}

    def zpar(z, k):
        d = z.args[0].args[0]
        if d.args[0] == "np:standard_normal":
            return (ZERO, ONE)[k]
        a = d.args[1 + k] if len(d.args) > 1 + k else NONE
        if a is NONE:
            return (ZERO, ONE)[k]
        return El()(a, z.args[2:]) if arr.rank(a) else a
    try:
        co = [[sub_(subst(v, {**zero, z: ONE}), subst(v, zero)) for z in zs] for v in vs]
        mus = [add(subst(v, zero), *[mul(b, zpar(z, 0)) for b, z in zip(bs, zs)]) for v, bs in zip(vs, co)]
        var = [power(zpar(z, 1), num(2)) for z in zs]
    except Unknown:
        return False
    for j in range(c.d):
        settle(rep, "%s:mean:%d" % (c.key, j), None, mus[j], mean(j), "mean[%d] of the sampler" % j, w)
        for k in range(c.d):
            got = add(*[mul(a, b, v) for a, b, v in zip(co[j], co[k], var)])
            key = "%s:covariance:%d,%d" % (c.key, j, k)
            if has_op(got, {"ext"}):
                rep.unsure(key, "covariance %s" % show(got)[:160], w)
            else:
                settle(rep, key, None, got, cov(j, k), "covariance[%d, %d] of the sampler" % (j, k), w)
    return True


def _mom(c, a, b):
    return (a, b) if c.setup is None else (a + "2", b + "2")


def normal_pars(c):
    m, S = _mom(c, "m", "S")
    m, S = A(m, num(c.d)), A(S, num(c.d), num(c.d), sym2=True)
    return [("mean", lambda j: at(m, j), (c.d,)), ("covariance", lambda j, k: at(S, j, k), (c.d, c.d))]


def exp_pars(c):
    if c.name == "BenchDenExponential":
        return [("mean", lambda j: ONE, (1,))]
    m = A(_mom(c, "m", "")[0], num(c.d), pos=True)
    return [("mean", lambda j: at(m, j), (c.d,))]


def law_delta(rep, c, t, w):
    for j in range(c.d):
        key = "%s:dim%d" % (c.key, j)
        try:
            v = El()(t, (I, num(j)))
        except Unknown as e:
            rep.unsure(key, str(e), w)
            continue
        settle(rep, key, None, v, at(A("c2" if c.setup else "c", num(c.d)), j), "coordinate %d of every sample" % j, w)


def law_nn(rep, c, t, w):
    """rows of the stored samples, chosen with the stored weights"""
    xs, ws = c.params["samples"], c.params["weights"]
    try:
        v = El()(t, (I, ZERO))
    except Unknown as e:
        rep.unsure(c.key, str(e), w)
        return
    ds = [x for x in subterms(t) if x.op == "dist" and x.args[0] == "np:choice"]
    if t.op == "index" and t.args[0] is xs and len(ds) == 1:
        p = ds[0].args[2]
        if len(ds[0].args) > 3 and ds[0].args[3] is FALSE:
            rep.bad(c.key, "rows are chosen without replacement, so the samples are not independent draws", w)
        elif p is ws:
            rep.ok(c.key, "rows of the stored samples chosen with the stored weights", w)
        elif p is NONE:
            rep.bad(c.key, "rows are chosen uniformly, not with the stored weights", w)
        else:
            rep.unsure(c.key, "weights %s" % show(p)[:200], w)
    else:
        rep.unsure(c.key, "sampler not resolved", w)


_unif = law_box(lambda c, j: c.box[0][j], lambda c, j: c.box[1][j])
LAWS = {"CMultivariateUniform": _unif, "BenchDenUniform": _unif,
        "CMultivariateNormal": law_draw(("CMultivariateNormal",), normal_pars),
        "CMultivariateExponential": law_draw(("np:exponential",), exp_pars),
        "BenchDenExponential": law_draw(("np:exponential",), exp_pars),
        "CMultivariateDelta": law_delta, "CNearestNeighbor": law_nn}


# ------------------------------------------------------------------ C24
def weight_regimes(w, K):
    p = [pos("p%d" % k) for k in range(K)]
    tot = add(*p)

    def reg(vals, nan=()):
        s = {}
        for k in range(K):
            s[mk("isnan", at(w, k))] = TRUE if k in nan else FALSE
            s[at(w, k)] = vals[k] if k not in nan else mk("nan")
        return s
    out = [("all positive", reg(p), [div(x, tot) for x in p])]
    for k in range(K):
        rest = add(*[p[j] for j in range(K) if j != k])
        ws = [ZERO if j == k else div(p[j], rest) for j in range(K)]
        out.append(("weight %d negative" % k, reg([neg(p[j]) if j == k else p[j] for j in range(K)]), ws))
        out.append(("weight %d zero" % k, reg([ZERO if j == k else p[j] for j in range(K)]), ws))
        out.append(("weight %d NaN" % k, reg(p, (k,)), ws))
    same = [num(Fraction(1, K))] * K
    out.append(("all zero", reg([ZERO] * K), same))
    out.append(("all negative", reg([neg(x) for x in p]), same))
    out.append(("all NaN", reg(p, tuple(range(K))), same))
    out.append(("one negative, adding up to one", reg([add(ONE, p[0])] + [ZERO] * (K - 2) + [neg(p[0])]), [ONE] + [ZERO] * (K - 1)))
    out.append(("already normalised", reg([div(x, tot) for x in p]), [div(x, tot) for x in p]))
    return out


def free_mixture(d, K, later):
    """a mixture built, or later given, arbitrary weights"""
    w0 = A("w0" if later else "w", num(K), pos=later)
    w, s = A("w", num(K), nan=True), A("sup", num(2), num(d))

    def setup(it, st, o):
        it.method(st, o, "set_weights", [it.box(st, w)])
    return w, Case("CMixtureModel", d, {"models": mixture_models(K), "weights": w0, "support": s, "dims": num(d)},
                   setup=setup if later else None, tag=":free:K%d%s" % (K, ":set_weights" if later else ""))


def free_gmm(d, K):
    c = gmm_case(d, K)
    w = A("w", num(K), nan=True)
    c.params = dict(c.params, weights=w)
    c.key += ":free"
    return w, c


def C24(rep):
    rep.rule = ("under every sign/NaN regime of the given weights, the density is the mixture with weights max(w,0)/sum (1/K if none "
                "is usable), and the sampler's component probabilities are those weights for the same components")
    cs = [free_mixture(1, 2, False), free_mixture(2, 3, False), free_mixture(1, 2, True), free_mixture(1, 3, True), free_gmm(1, 2)]
    if rep.tier == "thorough":
        cs += [free_mixture(1, 4, False), free_mixture(3, 4, True), free_gmm(2, 3)]
    for w, c in cs:
        def go(w=w, c=c):
            r = adt_run(c)
            if r == "dead":
                rep.bad(c.key, "a mixture of components cannot be built", where(c.cls, "__init__"))
                return
            K = int(arr.shape(w)[0].args[0])
            lds = component_logs(c, r, K)
            dens = {m: r.dens(m) for m in ("prob", "log_prob")}
            smp = r.call("sample", [NS])
            for nm, s, ws in weight_regimes(w, K):
                want = add(*[mul(a, exp(b)) for a, b in zip(ws, lds)])
                for m, t in dens.items():
                    key = "%s:%s:%s" % (c.key, m, nm)
                    try:
                        got = value(t, (I,), s)
                    except Unknown as e:
                        rep.unsure(key, str(e), where(c.cls, m))
                        continue
                    settle(rep, key, r, got, want if m == "prob" else log(want), "%s, %s" % (m, nm), where(c.cls, m))
                chooser(rep, "%s:sample:%s" % (c.key, nm), smp, s, ws, K, where(c.cls, "sample"))
            order(rep, c, smp, K)
            fresh(rep, c, smp)
            functions(rep, r)
        rep.guard(c.key, go)
    # a wrong number of weights is refused
    for later in (False, True):
        def go(later=later):
            P = prog()
            it = Interp(P, adt_dists=False, dim=ONE)
            st = State()
            key = "CMixtureModel:count%s" % (":set_weights" if later else "")
            w = where("CMixtureModel", "set_weights" if later else "__init__")
            bad = it.box(st, A("w", num(2), pos=True))
            try:
                ps = {const("models"): it.mklist(st, [DVal(comp(k)) for k in range(3)]), const("dims"): ONE,
                      const("support"): it.box(st, A("sup", num(2), num(1))),
                      const("weights"): it.box(st, A("w3", num(3), pos=True)) if later else bad}
                o = it.instantiate(st, P.cls("CMixtureModel"), [it.mkdict(st, ps)], {})
                if later:
                    it.method(st, o, "set_weights", [bad])
            except Dead:
                rep.ok(key, "two weights for three components are refused", w)
                return
            rep.bad(key, "two weights are accepted for three components", w)
        rep.guard("count%s" % later, go)


def component_logs(c, r, K):
    """log density of component k at point i"""
    x = x_(c.d)
    out = []
    for k in range(K):
        if c.name == "CMixtureModel":
            out.append(at(mk("logp", comp(k), x), I))
        else:
            out.append(at(mk("logp", gmm_comp(c, k), x), I))
    return out


def gmm_comp(c, k):
    for x in subterms(run_term(c)):
        if x.op == "logp" and x.args[0].op == "dist":
            m = El()(x.args[0].args[1], (ZERO,))
            if m is at(c.params["means"], k, 0):
                return x.args[0]
    raise Unknown("component %d not found" % k)


def run_term(c):
    return adt_run(c).dens("log_prob")


def categorical(t):
    """categorical draws in a sample term: [(the draw, weights term)]"""
    out = []
    for x in subterms(t):
        if x.op == "draw" and x.args[0].op == "dist":
            d = x.args[0]
            if d.args[0] == "np:multinomial":
                out.append((x, d.args[2]))
            elif d.args[0] == "np:choice":
                out.append((x, d.args[2]))
        elif x.op == "randint" and arr.rank(x.args[0]) == 1:
            out.append((x, x.args[0]))
    return list(dict.fromkeys(out))


def chooser(rep, key, smp, s, ws, K, w):
    cats = categorical(smp)
    if not cats:
        even = evenly(smp, K)
        if even is False:
            rep.bad(key, "no component is drawn: the choice is not random", w)
            return
        if even:
            cats = [(None, NONE)]
    if len(cats) != 1:
        rep.unsure(key, "%d categorical draws" % len(cats), w)
        return
    p = cats[0][1]
    for k in range(K):
        if p is NONE:
            got = num(Fraction(1, K))
        else:
            try:
                got = value(p, (num(k),), s)
            except Unknown as e:
                rep.unsure(key, str(e), w)
                return
        c = compare(got, ws[k])
        if c == "ne" and not residue(got) or isnan(got) is TRUE or wit.separate(got, ws[k]):
            rep.bad(key, "component %d is drawn with probability %s, its weight is %s" % (k, show(got)[:160], show(ws[k])[:160]), w)
            return
        if c != "eq":
            rep.unsure(key, "probability of component %d: %s" % (k, show(got)[:160]), w)
            return
    rep.ok(key, "components drawn with their weights", w)


def selections(smp, K):
    """choices of one of the K components"""
    return [x for x in subterms(smp) if x.op == "index" and x.args[0].op == "concat" and len(x.args[0].args) == K and
            all(a.op == "single" for a in x.args[0].args) and not is_num(x.args[1])]


def evenly(smp, K):
    """True: one of the K components, each as likely; False: a choice without any draw; None: neither is sure"""
    sel = selections(smp, K)
    if not sel:
        return None
    out = set()
    for x in sel:
        ix = x.args[1]
        ks = [y for y in subterms(ix) if y.op in ("draw", "randint", "rand01") or y.op == "key" and y.args != ("argmax",)]
        if not ks:
            out.add(None if is_opaque(ix) else False)
        elif ix.op == "randint" and ix.args[0] is ZERO and ix.args[1] is num(K):
            out.add(True)
        else:
            out.add(None)
    return out.pop() if len(out) == 1 else None


def fresh(rep, c, smp):
    """sample i has a pick and a draw of its own"""
    w = where(c.cls, "sample")
    try:
        v = El()(smp, (I, ZERO))
    except Unknown as e:
        rep.unsure(c.key + ":sample:fresh", str(e), w)
        return
    ds = list(dict.fromkeys(x for x in subterms(v) if x.op == "draw"))
    if not ds:
        rep.unsure(c.key + ":sample:fresh", "no draw in %s" % show(v)[:120], w)
        return
    for d in ds:
        what = "component pick" if d.args[0].op == "dist" and str(d.args[0].args[0]) in ("np:multinomial", "np:choice") else "component draw"
        key = "%s:sample:fresh %s" % (c.key, what)
        if contains(d, I) or any(x.op in ("at", "index") and x.args[0] is d and any(contains(y, I) for y in x.args[1:]) for x in subterms(v)):
            rep.ok(key, "every sample has its own", w)
        elif is_opaque(v):
            rep.unsure(key, "opaque", w)
        else:
            rep.bad(key, "one %s serves all samples of a call" % what, w)


def unfold(t):
    """the alternatives of a conditional value"""
    return unfold(t.args[1]) + unfold(t.args[2]) if t.op == "ite" else [t]


def order(rep, c, smp, K):
    """the drawn index selects the component of that index"""
    key = c.key + ":sample:component order"
    w = where(c.cls, "sample")
    cats = categorical(smp)
    sel = [x for x in subterms(smp) if x.op == "index" and len(cats) == 1 and contains(x.args[1], cats[0][0])]
    if len(sel) != 1:
        rep.unsure(key, "%d selections" % len(sel), w)
        return
    sel = sel[0]
    ix = sel.args[1]
    ix = ix.args[0] if ix.op == "idx" and isinstance(ix.args[0], T) else ix
    if ix is cats[0][0]:
        direct = True
    else:
        direct = ix.op in ("draw", "argmax")
    try:
        if sel.args[0].op != "concat" or len(sel.args[0].args) != K:
            raise Unknown("list of components")
        got = [a.args[0] for a in sel.args[0].args]
        want = [comp(k) for k in range(K)] if c.name == "CMixtureModel" else [gmm_comp(c, k) for k in range(K)]
    except Unknown as e:
        rep.unsure(key, str(e), w)
        return
    if ix.op == "poly" and not is_opaque(ix):
        ids = [y for y in subterms(ix) if y.op == "idx" and y.args[0] is cats[0][0]]
        off = sub_(ix, ids[0]) if ids else None
        if off is not None and is_num(off) and off is not ZERO and set(got) == set(want):
            rep.bad(key, "the component %s after the drawn one is used" % show(off), w)
            return
    if not direct:
        fixed = [v for v in unfold(ix) if not any(contains(v, c_[0]) for c_ in cats) and not is_opaque(v) and not any(
            y.op in ("draw", "rand01", "randint", "key") for y in subterms(v))]
        if fixed:
            rep.bad(key, "the component is not drawn in every case: its index can be %s" % show(fixed[0])[:160], w)
            return
        rep.unsure(key, "index %s" % show(ix)[:100], w)
    elif got == want:
        rep.ok(key, "index k draws from component k", w)
    elif set(got) == set(want):
        rep.bad(key, "the drawn index selects the components in another order", w)
    else:
        rep.unsure(key, "components not resolved", w)


# ------------------------------------------------------------------ C25
def C25(rep):
    rep.rule = ("support() elementwise against the documented box; the uniform's and delta's box integrals under every overlap regime; "
                "the uniform sampler's range equals the support")

    def chk(c, r):
        w = where(c.cls, "support")
        if c.support is None:
            return
        t = r.call("support", [])
        shape_is(rep, c.key + ":support:shape", arr.shape(t), (num(2), num(c.d)), "support()", w)
        for j in range(c.d):
            try:
                v = [El()(t, (num(a), num(j))) for a in range(2)]
            except Unknown as e:
                rep.unsure("%s:support:dim%d" % (c.key, j), str(e), w)
                continue
            key = "%s:support:dim%d" % (c.key, j)
            if c.support in ("ordered", "zero-lower"):
                o = gt0(sub_(v[1], v[0]))
                if c.support == "zero-lower" and compare(v[0], ZERO) == "ne" and is_num(v[0]):
                    rep.bad(key, "the support starts at %s, the density at 0" % show(v[0]), w)
                elif o is TRUE:
                    rep.ok(key, "[%s, %s]" % (show(v[0]), show(v[1])), w)
                elif o is FALSE:
                    rep.bad(key, "the support [%s, %s] is empty" % (show(v[0]), show(v[1])), w)
                else:
                    rep.unsure(key, "[%s, %s]" % (show(v[0]), show(v[1])), w)
                continue
            for a, nm in ((0, "lower"), (1, "upper")):
                settle(rep, key + ":" + nm, r, v[a], c.support[a][j], "%s limit of dimension %d" % (nm, j), w)
        if c.name in ("CMultivariateUniform", "BenchDenUniform") :
            _unif(Prefix(rep, "sampler:"), c, r.call("sample", [NS]), where(c.cls, "sample"))
        if c.name == "CMultivariateUniform":
            integrals(rep, c, r)
        if c.name == "CMultivariateDelta":
            delta_integral(rep, c, r)
    each(rep, cases(rep.tier == "thorough"), chk)
    each(rep, listed_supports(), chk)


class Prefix:
    def __init__(self, rep, p):
        self.rep, self.p = rep, p

    def ok(self, k, *a):
        self.rep.ok(self.p + k, *a)

    def bad(self, k, *a):
        self.rep.bad(self.p + k, *a)

    def unsure(self, k, *a):
        self.rep.unsure(self.p + k, *a)


OVERLAPS = {"box inside the support": ("lo", "a", "b", "hi"), "box covers the support": ("a", "lo", "hi", "b"),
            "box overlaps from below": ("a", "lo", "b", "hi"), "box overlaps from above": ("lo", "a", "hi", "b"),
            "box below the support": ("a", "b", "lo", "hi"), "box above the support": ("lo", "hi", "a", "b")}


def integrals(rep, c, r):
    w = where(c.cls, "integral")
    d = c.d
    a, b = A("a", num(d)), A("b", num(d))
    one = arr.shape(c.params["radius"])[0] is ONE and d > 1
    kinds = list(OVERLAPS)
    combos = [] if one else [[(k if j == jj else kinds[0]) for j in range(d)] for k in kinds for jj in range(d)]
    if d == 2 and not one:
        combos = [list(x) for x in itertools.product(kinds, repeat=2)]
    for combo in combos:
        s, frac, vol = {}, ONE, ONE
        key = "%s:integral:%s" % (c.key, " / ".join(combo))
        for j, nm in enumerate(combo):
            sq = OVERLAPS[nm]
            cur = sym("L%d" % j, kind="num", rank=0)
            val = {}
            for i, q in enumerate(sq):
                if i:
                    cur = add(cur, pos("g%d_%d" % (j, i)))
                val[q] = cur
            s[at(c.params["center"], j)] = scale(add(val["lo"], val["hi"]), HALF.args[0])
            s[at(c.params["radius"], j)] = scale(sub_(val["hi"], val["lo"]), HALF.args[0])
            s[at(a, j)], s[at(b, j)] = val["a"], val["b"]
            lo = val["a"] if sq.index("a") > sq.index("lo") else val["lo"]
            hi = val["b"] if sq.index("b") < sq.index("hi") else val["hi"]
            ov = ZERO if nm in ("box below the support", "box above the support") else sub_(hi, lo)
            frac = mul(frac, ov)
            vol = mul(vol, sub_(val["hi"], val["lo"]))
        one_integral(rep, key, r, a, b, s, div(frac, vol), w, " / ".join(combo))
    if one:
        s = {}
        for j in range(d):
            s[at(a, j)] = sub_(at(c.params["center"], j), at(c.params["radius"], 0))
            s[at(b, j)] = add(at(c.params["center"], j), at(c.params["radius"], 0))
        one_integral(rep, c.key + ":integral:the whole support", r, a, b, s, ONE, w, "the whole support")


def one_integral(rep, key, r, a, b, s, want, w, nm):
    try:
        t = r.call("integral", [r.it.box(r.st, a), r.it.box(r.st, b)])
        sh = arr.shape(t)
        if sh is None or len(sh) > 1:
            raise Unknown("shape")
        got = value(t, (ZERO,) * len(sh), s)
    except (Unknown, Dead) as e:
        rep.unsure(key, str(e), w)
        return
    settle(rep, key, r, got, want, "integral, %s" % nm, w)


def delta_integral(rep, c, r):
    w = where(c.cls, "integral")
    d = c.d
    a, b = A("a", num(d)), A("b", num(d))
    ce = c.params["center"]
    for nm in ("inside",) + tuple("%s in dim %d" % (x, j) for j in range(d) for x in ("below", "above")):
        s = {}
        for j in range(d):
            lo, hi = sub_(at(ce, j), pos("g%d" % j)), add(at(ce, j), pos("h%d" % j))
            if nm == "below in dim %d" % j:     # the box lies below the centre
                lo, hi = sub_(sub_(at(ce, j), pos("g%d" % j)), pos("h%d" % j)), sub_(at(ce, j), pos("g%d" % j))
            elif nm == "above in dim %d" % j:
                lo, hi = add(at(ce, j), pos("g%d" % j)), add(add(at(ce, j), pos("g%d" % j)), pos("h%d" % j))
            s[at(a, j)], s[at(b, j)] = lo, hi
        one_integral(rep, "%s:integral:%s" % (c.key, nm), r, a, b, s, ONE if nm == "inside" else ZERO, w, "centre " + nm)


# ------------------------------------------------------------------ C26
OPS = (("prob", "x"), ("log_prob", "x"), ("prob", "x1"), ("log_prob", "x1"), ("support", ""), ("sample", "n"), ("integral", "ab"))


def C26(rep):
    rep.rule = ("heap before and after each evaluation or draw: every field, array, list and dictionary that existed before is unchanged, "
                "the points passed in are unchanged, the random generator is not reseeded; an evaluation after another one has the "
                "same value term as on its own")

    def chk(c, r):
        for m, a in OPS:
            effect(rep, c, r, m, a)
        for m in ("prob", "log_prob"):
            for m2 in ("prob", "log_prob"):
                for how in ("refilled", "fresh", "fewer", "more"):
                    rep.guard("%s:%s after %s:%s" % (c.key, m2, m, how), lambda m=m, m2=m2, how=how: again(rep, c, r, m, m2, how))
        built(rep, c, r)
    cs = cases(rep.tier == "thorough")
    each(rep, cs, chk)
    each(rep, [c for _, c in (free_mixture(1, 3, False), free_gmm(1, 2))], lambda c, r: built(rep, c, r))


def built(rep, c, r):
    """construction leaves the arrays and lists it is given as they were"""
    key, w = c.key + ":built", where(c.cls, "__init__")
    if any(d for _, d in r.altered):
        rep.bad(key, "building the distribution changes an array or list among its parameters", w)
    elif r.altered:
        rep.unsure(key, "building the distribution may change its parameters", w)
    else:
        rep.ok(key, "the parameters given are left as they were", w)


def again(rep, c, r, m, m2, how):
    """an evaluation following another one at other points (in the same or in another array) gives what it gives on its own"""
    w = where(c.cls, m2)
    key = "%s:%s after %s:%s" % (c.key, m2, m, how)
    it, y, x = r.it, A("y", N, num(c.d)), r.x
    if how in ("fewer", "more"):
        x, y = A("x5", num(5), num(c.d)), A("y3", num(3), num(c.d))
        x, y = (x, y) if how == "fewer" else (y, x)

    def ev(st, m, ref):
        return it.deref(st, it.method(st, r.o, m, [ref]))
    try:
        st = r.st.copy()
        alone = ev(st, m2, it.box(st, y))
        st = r.st.copy()
        ref = it.box(st, x)
        ev(st, m, ref)
        if how == "refilled":
            if not isinstance(ref, Ref) or not isinstance(st.heap.get(ref.id), Cell):
                return
            st.heap[ref.id] = Cell(y)
        else:
            ref = it.box(st, y)
        got = ev(st, m2, ref)
    except Dead:
        return
    if not isinstance(alone, T) or not isinstance(got, T):
        return
    if got is alone:
        rep.ok(key, "%s of other points after %s" % (m2, m), w)
        return
    if how in ("fewer", "more"):
        sa, sb = arr.shape(got), arr.shape(alone)
        if sa is None or sb is None or len(sa) != len(sb):
            return
        if any(equal3(p, q) is False for p, q in zip(sa, sb)):
            rep.bad(key, "%s of %s points after %s of %s has shape %s instead of %s" % (
                m2, show(arr.shape(y)[0]), m, show(arr.shape(x)[0]), tuple(show(q) for q in sa), tuple(show(q) for q in sb)), w)
            return
        n = [ZERO, num(2)]
    else:
        n = [I]
    a, b = None, None
    for i in n:
        try:
            a, b = value(got, (i,), {}), value(alone, (i,), {})
        except Unknown as e:
            rep.unsure(key, "value not resolved: %s" % e, w)
            return
        if a is not b:
            break
    if any(x.op == "key" for t in (a, b) for x in subterms(t)):
        return      # a random estimate
    what = "%s of other points after %s%s" % (m2, m, ", the same array filled anew" if how == "refilled" else
                                             ", a batch of another size" if how in ("fewer", "more") else "")
    settle(rep, key, r, a, b, what, w)


def effect(rep, c, r, m, a):
    w = where(c.cls, m)
    key = "%s:%s%s" % (c.key, m, ":single" if a == "x1" else "")
    it, st = r.it, r.st.copy()
    args = {"x": [r.x], "x1": [r.x1], "": [], "n": [NS], "ab": [A("a", num(c.d)), A("b", num(c.d))]}[a]
    vals = [v if v is NS else it.box(st, v) for v in args]
    if m == "integral":
        vals.append(NS)
    before = dict(st.heap)
    n0 = len(it.events)
    try:
        it.method(st, r.o, m, vals)
    except Dead:
        return
    bad = changed(before, st, it)
    seeds = [e for e in it.events[n0:] if e.kind == "seed"]
    if seeds:
        rep.bad(key, "%s reseeds the random generator" % m, w)
        return
    hard = [b for b in bad if b[1] and not inner(b[0], r, vals, before)]
    if bad and not hard:
        say = follow(c, r, st)
        names = "; ".join(describe(b[0], r, vals, before) for b in bad[:4])
        if say == "same":
            rep.ok(key, "%s changes %s, which nothing shows" % (m, names), w)
        elif say:
            rep.bad(key, "%s changes %s: afterwards %s" % (m, names, say), w)
        else:
            rep.unsure(key, "%s may change %s" % (m, names), w)
    elif hard:
        rep.bad(key, "%s changes %s" % (m, "; ".join(describe(b[0], r, vals, before) for b in hard[:4])), w)
    else:
        rep.ok(key, "%d heap records unchanged" % len(before), w)


def inner(b, r, vals, before):
    """a private attribute (or one not set so far): what counts is whether anything shows it"""
    loc, f = b
    if any(isinstance(v, Ref) and v.id == loc for v in vals):
        return False
    rec = before.get(loc)
    if isinstance(rec, dict):
        return bool(f) and (f.startswith("_") or f not in rec or rec[f] is NONE)
    if isinstance(rec, (Cell, LRec, DRec)):
        own = {f for k, x in before.items() if isinstance(x, dict) for f, v in x.items()
               if getattr(v, "id", None) == loc and not isinstance(v, (Obj, SObj))}
        return bool(own) and all(f.startswith("_") for f in own)
    return False


def follow(c, r, after):
    """what can be seen of the distribution before and after: 'same', a difference, or None"""
    it, y = r.it, A("y", N, num(c.d))
    unsure = False

    def see(st):
        out = {}
        for m in ("log_prob", "prob", "support"):
            try:
                out[m] = it.deref(st, it.method(st, r.o, m, [it.box(st, y)] if m != "support" else []))
            except Dead:
                out[m] = "stops"
        for n in ("loc", "scale"):
            try:
                out[n] = it.deref(st, it.getattr(st, r.o, n))
            except Exception:
                pass
        return out
    A_, B_ = see(r.st.copy()), see(after.copy())
    for m in A_:
        a, b = A_.get(m), B_.get(m)
        if same_val(a, b):
            continue
        if not isinstance(a, T) or not isinstance(b, T):
            if isinstance(a, str) != isinstance(b, str):
                return "%s does not complete" % m
            unsure = True
            continue
        try:
            u, v = (value(a, (I,), {}), value(b, (I,), {})) if m in ("log_prob", "prob") else (a, b)
        except Unknown:
            unsure = True
            continue
        d = wit.separate(v, u) if arr.shape(u) == () and arr.shape(v) == () else None
        if d or (compare(u, v) == "ne" and not residue(u) and not residue(v)):
            return "%s of the same points is %s instead of %s" % (m, show(v)[:150], show(u)[:150])
        if compare(u, v) != "eq":
            unsure = True
    return None if unsure else "same"


def describe(b, r, vals, before):
    loc, f = b
    for v in vals:
        if isinstance(v, Ref) and v.id == loc:
            return "the points passed in"
    if f:
        return "attribute %s" % f
    for k, rec in before.items():
        if isinstance(rec, dict):
            for f, v in rec.items():
                if getattr(v, "id", None) == loc and not isinstance(v, (Obj, SObj)):
                    return "the contents of attribute %s" % f
    return "stored data"


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, T) and isinstance(b, T):
        return a is b or equal(a, b)
    if type(a) is type(b):
        if isinstance(a, (Ref, Lst, Dct, Obj)):
            return a.id == b.id
        if isinstance(a, SObj):
            return a.id is b.id
        if isinstance(a, Tup):
            return len(a.items) == len(b.items) and all(same_val(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, DVal):
            return a.d is b.d
        if isinstance(a, XObj):
            return repr(a) == repr(b) or getattr(a, "t", 0) is getattr(b, "t", 1)
        if isinstance(a, (Fn, Meth, Cls, Mod, Ext)):
            return True
    return False


def definite(a):
    if isinstance(a, T):
        return not is_opaque(a)
    return not isinstance(a, (XObj, Uni))


def changed(before, st, it):
    """[((record, field), definite)] of what existed before and differs now"""
    out = []
    for k, a in before.items():
        b = st.heap.get(k)
        if a is b:
            continue
        if b is None:
            out.append(((k, None), False))
        elif isinstance(a, Cell):
            if not same_val(a.t, b.t):
                out.append(((k, None), definite(a.t) and definite(b.t)))
        elif isinstance(a, dict):
            for f in set(a) | set(b):
                if f not in a:
                    out.append(((k, f), False))
                elif f not in b:
                    out.append(((k, f), True))
                elif not same_val(a[f], b[f]):
                    va, vb = it_deref(it, st, a[f], before), it_deref(it, st, b[f])
                    if not same_val(va, vb):
                        out.append(((k, f), definite(va) and definite(vb)))
        elif isinstance(a, LRec):
            if not (a.base is b.base and len(a.items) == len(b.items) and all(same_val(x, y) for x, y in zip(a.items, b.items))):
                out.append(((k, None), True))
        elif isinstance(a, DRec):
            ka = {x: y for x, y in a.items.items()}
            kb = {x: y for x, y in b.items.items()}
            if set(ka) != set(kb) or not all(same_val(ka[x], kb[x]) for x in ka):
                out.append(((k, None), set(ka) <= set(kb)))
        elif isinstance(a, T):
            if not same_val(a, b):
                out.append(((k, k[2] if isinstance(k, tuple) and len(k) > 2 else None), definite(b)))
    return out


def it_deref(it, st, v, heap=None):
    if isinstance(v, Ref):
        c = (heap or st.heap).get(v.id)
        return c.t if isinstance(c, Cell) else v
    return v


# ------------------------------------------------------------------ C28
def C28(rep):
    rep.rule = ("the constructor is interpreted on a dictionary lacking one required parameter: it must stop at a check whose message "
                "names that parameter, before any lookup of it")
    P = prog()
    d = 2
    q = DVal(sym("q0", kind="dist"))
    fn = lambda it, st: XObj(sym("fn"))
    s = A("sup", num(2), num(d))
    fams = {"CMultivariateUniform": ({"center": A("c", num(d)), "radius": A("r", num(d), pos=True)}, ()),
            "CMultivariateNormal": ({"mean": A("m", num(d)), "sigma": A("S", num(d), num(d), sym2=True)}, ()),
            "CMultivariateExponential": ({"mean": A("m", num(d), pos=True)}, ()),
            "CMultivariateDelta": ({"center": A("c", num(d)), "support": s}, ()),
            "CNearestNeighbor": ({"samples": A("xs", num(3), num(d)), "weights": A("w", num(3), pos=True), "support": s}, ()),
            "CKernelDensity": (kde_case(d, 2).params, ()),
            "CGaussianMixtureModel": (dict(gmm_case(d, 2, False).params), ()),
            "CMixtureModel": (mixture_case(d, 2).params, ()),
            "GenericNoisyFunction": ({"noise_model": q, "function": fn, "dims": num(d), "support": s}, ("noise_model",)),
            "GenericNuisanceGenModel": ({"gen_function": fn, "params_mask": A("mask", num(d)), "noise_sigma": sym("sg", kind="num", rank=0),
                                         "nuisance_dist": q, "dims": num(d), "support": s}, ("nuisance_dist",)),
            "ABCDistribution": ({"prior_d": q, "sensor_d": q, "gen_d": q, "likelihood_f": fn, "loglikelihood_f": fn,
                                 "slack": sym("sl", kind="num", rank=0), "support": s}, ("prior_d", "sensor_d", "gen_d"))}
    for name, (ps, typed) in fams.items():
        cls = P.cls(name)
        if cls is None:
            raise Anchor("class %s not found" % name)
        w = where(name, "__init__")

        def build(drop=None, wrong=None):
            it = Interp(P, adt_dists=False, dim=num(d))
            st = State()
            m = {}
            for k, v in ps.items():
                if k == drop:
                    continue
                if k == wrong:
                    m[const(k)] = num(7)
                    continue
                m[const(k)] = v(it, st) if callable(v) else it.box(st, v) if isinstance(v, T) and META.get(v, {}).get("kind") == "arr" else v
            dead = False
            try:
                it.instantiate(st, cls, [it.mkdict(st, m)], {})
            except Dead:
                dead = True
            rep.functions |= set(it.functions_seen)
            return dead, [e for e in it.events if e.kind in ("assertfail", "keyerror", "raise")]

        def whole():
            dead, ev = build()
            if dead:
                txt = "; ".join("%s %s" % (e.kind, e.data.get("key", show_msg(e))) for e in ev[:2])
                rep.bad(name + ":complete", "a complete set of parameters (%s) is refused: %s" % (", ".join(ps), txt), w)
            else:
                rep.ok(name + ":complete", "complete parameters are accepted", w)
        rep.guard(name + ":complete", whole)
        for k in ps:
            def go(k=k):
                verdict(rep, "%s:without %s" % (name, k), k, build(drop=k), "built without '%s'" % k, w)
            rep.guard("%s:%s" % (name, k), go)
        for k in typed:
            def go(k=k):
                verdict(rep, "%s:mistyped %s" % (name, k), k, build(wrong=k), "built with a number as '%s'" % k, w)
            rep.guard("%s:%s" % (name, k), go)


def show_msg(e):
    m = e.data.get("msg")
    if isinstance(m, T) and m.op == "const":
        return str(m.args[1])
    if isinstance(m, T):
        return show(m)
    x = e.data.get("exc")
    return str(x) if x is not None else ""


def verdict(rep, key, k, res, what, w):
    dead, ev = res
    if not dead:
        if any(e.kind == "raise" for e in ev):
            rep.unsure(key, "%s: depends on an exception handler" % what, w)
        else:
            rep.bad(key, "%s: nothing refuses it" % what, w)
        return
    first = ev[0] if ev else None
    if first is None:
        rep.unsure(key, "%s: construction stops for another reason" % what, w)
    elif first.kind == "keyerror":
        if first.data["key"] == k:
            rep.bad(key, "%s: the parameter is looked up before any check" % what, w)
        else:
            rep.unsure(key, "%s: lookup of %s fails" % (what, first.data["key"]), w)
    elif first.kind == "raise":
        rep.unsure(key, "%s: refused by an exception" % what, w)
    else:
        m = first.data.get("msg")
        if not isinstance(m, T):
            rep.bad(key, "%s: refused without naming the parameter" % what, w)
        elif k in show(m):
            rep.ok(key, "%s: refused, %s" % (what, show_msg(first)), w)
        elif m.op == "const":
            rep.bad(key, "%s: refused with a message that does not name it: %s" % (what, show_msg(first)), w)
        else:
            rep.unsure(key, "%s: message %s" % (what, show(m)[:120]), w)


CHECKS = {"C20": C20, "C21": C21, "C22": C22, "C23": C23, "C24": C24, "C25": C25, "C26": C26, "C27": C27, "C28": C28}
