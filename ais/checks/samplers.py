"""Samplers: C01 C02 C03 C04 C05 C06 C07 C08 C09 C12 C13 C14 C15 C16.

Every sampler is built on symbolic parameters and asked twice for a symbolic number of samples of a symbolic target with a
symbolic time budget; the second request starts from whatever state the first one left, so it stands for any later request.
Loops are summarised by solving their recurrences, so counters come out as closed forms over the trip counts, and stored samples
and weights as collections indexed by iteration."""
import itertools
import os
import re
from fractions import Fraction
from ..terms import *
from ..vals import *
from ..interp import Interp
from .. import arr, elem, npsem, wit
from ..arr import index, length
from ..elem import El, Unknown, compare
from ..report import Anchor
from .dists import prog, A, at, where, show_msg, changed, same_val, it_deref

PI_ = sym("PI", kind="dist")
PI2 = sym("PI2", kind="dist")
PROP = sym("PROP", kind="dist")
PD = sym("PD", kind="dist")


def n_(k, **kw):
    return sym(k, kind="num", rank=0, **kw)


def cnt(k, pos=True):
    return n_(k, int=True, nonneg=True, **({"pos": True} if pos else {}))


def lo_(d):
    return A("lo", num(d))


def hi_(d):
    return A("hi", num(d))


def ellipsoid_hints(it, d):
    C = "CEllipsoid"
    it.fieldshape[(C, "indices")] = lambda t: {"shape": (cnt("Nn"),), "kind": "bool"}
    it.fieldshape[(C, "volume")] = lambda t: {"shape": (), "kind": "num", "rank": 0}
    it.ftypes[(C, "indices")] = ("arr",)
    it.ftypes[(C, "sampler")] = ("dist",)


def node_hints(it, d):
    d = num(d)
    C = "CTreePyramidNode"
    for f, sh in (("center", (d,)), ("radius", (ONE,)), ("coords", (ONE, d)), ("weight", (ONE,))):
        it.fieldshape[(C, f)] = lambda t, sh=sh: {"shape": sh, "kind": "arr"}
        it.ftypes[(C, f)] = ("arr",)
    it.fieldshape[(C, "coords_hist")] = lambda t: {"shape": (mk("len", t), d), "kind": "arr"}
    it.fieldshape[(C, "weight_hist")] = lambda t: {"shape": (mk("len", t),), "kind": "arr"}
    for f in ("coords_hist", "weight_hist"):
        it.ftypes[(C, f)] = ("arr",)
    for f in ("leaf_idx", "node_idx", "level"):
        it.fieldshape[(C, f)] = lambda t: {"rank": 0, "shape": (), "kind": "num", "int": True}
    it.ftypes[(C, "sampler")] = ("dist",)
    c = prog().cls(C)
    if c and d.op == "num":
        it.fieldshape[(C, "children")] = lambda t: {"shape": (num(2 ** int(d.args[0])),), "kind": "list"}
        it.ftypes[(C, "children")] = ("list", ("obj", c))
    C = "CHiDaiseeNode"
    for f, sh in (("center", (d,)), ("radius", (d,))):
        it.fieldshape[(C, f)] = lambda t, sh=sh: {"shape": sh, "kind": "arr"}
        it.ftypes[(C, f)] = ("arr",)
    it.fieldshape[(C, "samples")] = lambda t: {"shape": (mk("len", t), d), "kind": "arr"}
    it.fieldshape[(C, "weights")] = lambda t: {"shape": (mk("len", t),), "kind": "arr"}
    for f in ("samples", "weights"):
        it.ftypes[(C, f)] = ("arr",)
    for f in ("N", "idx"):
        it.fieldshape[(C, f)] = lambda t: {"rank": 0, "shape": (), "kind": "num", "int": True, "nonneg": True}
    it.ftypes[(C, "sampler")] = ("dist",)
    c = prog().cls(C)
    if c:
        for f in ("left", "right"):
            it.ftypes[(C, f)] = ("obj", c)


class Conf:
    def __init__(self, name, tag="", extra=None, sym_=(), hooks=(), kind=""):
        self.name, self.tag, self.extra, self.sym, self.hooks, self.kind = name, tag, extra or {}, set(sym_), hooks, kind
        self.hooked = kind == "tp" and (tag.endswith("-ess") or "-leaf-" in tag)

    def key(self, d):
        return "%s%s:d%d" % (self.name, self.tag, d)


def confs():
    mix = {"K": cnt("K"), "N": cnt("Nn"), "J": cnt("J"), "sigma": n_("sigma", pos=True)}
    kde = {"kde_bw": n_("bw", pos=True), "n_samples_kde": cnt("nkde")}
    mh = {"n_steps": cnt("nsteps"), "n_burnin": cnt("nburn", False), **kde}
    out = [
        Conf("CMixturePMC", extra=mix, kind="mpmc"),
        Conf("CDeterministicMixtureAIS", extra=mix, kind="dm"),
        Conf("CLayeredAIS", extra={**mix, "L": cnt("L"), "mh_sigma": n_("mhs", pos=True)}, kind="lais"),
        Conf("CRejectionSampling", extra={"proposal": const("PROP"), "scaling": n_("scal", pos=True), **kde}, kind="rej"),
        Conf("CMetropolisHastings", extra={**mh, "proposal_d": DVal(PD)}, kind="mh"),
        Conf("CMetropolisHastings", ":default-proposal", {**mh, "proposal_sigma": n_("psig", pos=True)}, kind="mh"),
        Conf("CNestedSampling", extra={"proposal": const("PROP"), "N": cnt("Nn"), **kde}, kind="nested"),
        Conf("CMultiNestedSampling", extra={"proposal": const("PROP"), "N": cnt("Nn"), "converged_radius": n_("cr", pos=True),
                                            "inflate_factor": n_("infl", pos=True), **kde}, sym_={"CEllipsoid"}, kind="multinested"),
        Conf("CHiDaiseeSampling", extra={"tau": n_("tau", pos=True), "n_min": cnt("nmin"),
                                         "target_ess": n_("ess", rng=(Fraction(0), Fraction(1)), pos=True)},
             sym_={"CHiDaiseeNode"}, kind="hid"),
    ]
    for m in ("simple", "mixture", "dm"):
        for r in ("none", "leaf"):
            for k in ("haar", "normal"):
                for e in (None, "ess"):
                    if m == "dm" and (r == "leaf" or e):
                        continue
                    out.append(Conf("CTreePyramidSampling", ":%s-%s-%s%s" % (m, r, k, "-ess" if e else ""),
                                    {"method": const(m), "resampling": const(r), "kernel": const(k),
                                     "ess_target": NONE if e is None else n_("ess", rng=(Fraction(0), Fraction(1)), pos=True),
                                     "n_min": cnt("nmin"), "parallel_samples": cnt("par")},
                                    sym_={"CTreePyramidNode"}, kind="tp"))
    return out


# ------------------------------------------------------------------ what stands for code verified elsewhere
def clusters_hook(it, f, args, kw, st):
    """the partition of the live points into ellipsoids: the points as they are and some list of ellipsoids"""
    c = prog().cls("CEllipsoid")
    pts = args[0] if args else kw.get("points")
    if c is None or pts is None:
        return NotImplemented
    m = sym("ells%d" % it.fresh(), kind="list")
    META[m] = {"shape": (mk("len", m),)}
    return Tup([pts, it.mklist(st, (), m, ("obj", c))])


def expand_hook(it, f, args, kw, st):
    """splitting of the leaves that need it: some list of nodes to sample, and some tree of leaves and inner nodes (what splitting
    does to the tree, and that it neither draws nor evaluates, is decided separately)"""
    c = prog().cls("CTreePyramidNode")
    o = f.self_
    if c is None or not isinstance(o, Obj) or o.id not in st.heap:
        return NotImplemented
    T_ = st.heap[o.id].get("T")
    if not isinstance(T_, Obj):
        return NotImplemented
    k = mk("key", "tree~%d" % it.fresh(), *[i for _l, i in it.activeloops])
    fr = lambda nm, kind, *dims: mk("fresh", const(kind), mk("key", nm, k), *dims)
    M, d = fr("M", "int"), it.dim
    live = fr("live", "bool", M)
    L = arr.nnz(live)
    rec = st.heap[T_.id] = dict(st.heap[T_.id])
    new = {"nodes": it.mklist(st, (), fr("nodes", "list", M), ("obj", c)),
           "leaves": it.mklist(st, (), fr("leaves", "list", L), ("obj", c)),
           "leaves_idx": it.mklist(st, (), live, ("bool",)), "centers": fr("centers", "num", M, d), "radii": fr("radii", "num", M, ONE),
           "samples": fr("samples", "num", M, d), "weights": fr("weights", "num", M)}
    for g, v in new.items():
        if g in rec:
            rec[g] = it.box(st, v) if isinstance(v, T) else v
    return it.mklist(st, (), fr("split", "list", fr("nsplit", "int")), ("obj", c))


class Run:
    """a sampler, built, asked twice, with the states in between"""

    def __init__(self, c, d, second=True, sealed=(), other=None, dark=False):
        P = prog()
        if P.cls(c.name) is None:
            raise Anchor("class %s not found" % c.name)
        self.c, self.d = c, d
        self.it = it = Interp(P, dim=num(d))
        it.symclasses |= c.sym
        it.sealed |= set(sealed)
        it.tag = str(d)
        ellipsoid_hints(it, d)
        node_hints(it, d)
        it.eval_hook = lambda it, st, code: DVal(PROP) if code is const("PROP") else None
        it.target_syms = set(it.target_syms) | {PI_, PI2}
        if dark:
            it.dens_hook = patchy_target if dark == "patchy" else dark_target
        if c.kind == "multinested":
            it.hooks["CMultiNestedSampling.recursive_clustering"] = clusters_hook
        self.added = []
        if c.kind == "hid":
            it.hooks["CHiDaiseeNode.add_sample"] = self.added_hook
        if c.hooked:
            it.hooks["CTreePyramidSampling._expand_nodes"] = expand_hook
        st = State()
        ps = {"space_min": it.box(st, lo_(d)), "space_max": it.box(st, hi_(d)), "dims": num(d)}
        ps.update(c.extra)
        pd = it.mkdict(st, {const(k): v for k, v in ps.items()})
        st.heap["G:pi"] = st.heap["G:q"] = ZERO
        self.o = it.instantiate(st, P.cls(c.name), [pd], {})
        st.heap["G:pi"] = st.heap["G:q"] = ZERO
        self.st0 = st.copy()
        self.ev0, self.li0 = len(it.events), len(it.loopinfos)
        self.nreq, self.tout = cnt("nreq", False), n_("timeout")
        self.r1 = it.method(st, self.o, "importance_sample", [DVal(PI_), self.nreq, self.tout])
        self.st1 = st.copy()
        self.ev1, self.li1 = len(it.events), len(it.loopinfos)
        self.nreq2, self.tout2 = cnt("nreq2", False), n_("timeout2")
        self.r2 = self.st2 = None
        if second:
            self.r2 = it.method(st, self.o, "importance_sample", [DVal(other or PI_), self.nreq2, self.tout2])
            self.st2 = st.copy()
        self.li2 = len(it.loopinfos)
        self.key = c.key(d)

    def added_hook(self, it, f, args, kw, st):
        """what goes into a leaf, and the leaf's own distribution at that moment"""
        a = list(args) + list(kw.values())
        if len(a) == 2 and not kw:
            self.added.append((it.deref(st, it.getattr(st, f.self_, "sampler")), it.deref(st, a[0]), it.deref(st, a[1]),
                               tuple(f_.qual for f_ in it.callstack)))
        return NotImplemented

    def get(self, st, f):
        s = st.copy()
        return self.it.deref(s, self.it.getattr(s, self.o, f))

    def rec(self, st):
        return st.heap[self.o.id]

    def allmus(self):
        return {m for li in self.it.loopinfos for m in li.mus.values() if m is not None}

    def states(self):
        return [("after the first request", self.st1)] + ([("after a later request", self.st2)] if self.st2 is not None else [])


DARK = ("mpmc", "dm", "lais", "mh", "nested", "multinested")


def dark_target(it, st, d, name, x):
    """a target that is zero wherever it is asked"""
    if d not in (PI_, PI2):
        return None
    n = npsem.npts(x)
    it.ghost(st, "G:pi", n)
    it.event(st, "eval", d=d, x=x, n=n, res=ZERO, target=True)
    return it.box(st, arr.full((n,), ZERO if name == "prob" else neg(INF)))


def patchy_target(it, st, d, name, x):
    """a target that is zero at some of the points it is asked"""
    if d not in (PI_, PI2):
        return None
    n = npsem.npts(x)
    it.ghost(st, "G:pi", n)
    v = npsem.logp(it, d, x)
    v = mk("maximum", ZERO, v)
    it.event(st, "eval", d=d, x=x, n=n, res=v, target=True)
    if arr.rank(x) == 1:
        v = arr.reshape(v, (ONE,)) if arr.shape(v) == () else v
    return it.box(st, v if name == "prob" else log(v))


_runs = {}


def run(c, d, sealed=(), dark=False):
    k = (c.key(d), sealed, dark)
    if k not in _runs:
        _runs[k] = Run(c, d, sealed=sealed, dark=dark)
        if dark:
            _runs[k].key += ":patchy" if dark == "patchy" else ":dark"
    return _runs[k]


def dims(rep):
    return (2,) if rep.tier == "quick" else (1, 2, 3)


def every(rep, fn, kinds=None, dark=False):
    for c in confs():
        if kinds and c.kind not in kinds:
            continue
        for d in dims(rep):
            def go(c=c, d=d):
                r = run(c, d, dark=dark)
                rep.functions |= set(r.it.functions_seen)
                fn(rep, r)
            rep.guard(c.key(d) + (":%s" % (dark if dark == "patchy" else "dark") if dark else ""), go)


# ------------------------------------------------------------------ C01 C02
def soft(t):
    """nothing unknown but the values loops leave"""
    return all(x.startswith("loopout:") for x in opaque_reasons(t))


def signed(d):
    """the difference is a sum of like-signed quantities: it cannot cancel"""
    sg = set()
    for m, c in poly_of(d).items():
        if not all(quantity(a) for a, _e in m):
            return False
        sg.add(c > 0)
    return len(sg) == 1


def quantity(t):
    from ..terms import _nonneg
    if t.op == "lsum":
        return t.args[2].op == "num" and t.args[2].args[0] >= 0 or quantity(t.args[2]) or poscomb(t.args[2])
    if t.op == "ite":
        return poscomb(t.args[1]) and poscomb(t.args[2])
    return _nonneg(t)


def poscomb(t):
    return all(c >= 0 and all(quantity(a) for a, _e in m) for m, c in poly_of(t).items())


def count_check(rep, what, attr, stat, ghost):
    def fn(rep, r):
        it = r.it
        w = where(r.c.name, "importance_sample")
        states = [(k, s, r.key + (":first" if s is r.st1 else ":later")) for k, s in r.states()]
        s3 = r.st2.copy()
        try:
            it.method(s3, r.o, "sample", [cnt("ns", False)])
            states.append(("after drawing from the approximation", s3, r.key + ":sample"))
        except (Dead, Exception):
            pass
        for lab, st, key in states:
            g = st.heap[ghost]
            compare_counts(rep, key, r, r.get(st, attr), g, "%s %s" % (what, lab), w, attr)
            s = st.copy()
            try:
                stats = it.method(s, r.o, "get_stats", [])
                v = dict_get(it, s, stats, stat)
            except Dead:
                v = None
            if v is not None:
                compare_counts(rep, key + ":stats", r, v, g, "%s in the statistics %s" % (what, lab), w, attr)
        if r.c.hooked and prog().cls(r.c.name).find("_expand_nodes"):
            # the splitting left out above
            s, hk = r.st1.copy(), it.hooks.pop("CTreePyramidSampling._expand_nodes")
            try:
                a0, g0 = r.get(s, attr), s.heap[ghost]
                it.method(s, r.o, "_expand_nodes", [it.getattr(s, it.getattr(s, r.o, "T"), "leaves"), cnt("maxparts")])
                compare_counts(rep, r.key + ":split", r, sub(r.get(s, attr), a0), sub(s.heap[ghost], g0),
                               what + " while leaves are split", w, attr)
            finally:
                it.hooks["CTreePyramidSampling._expand_nodes"] = hk
        # a reset starts the count again
        s = r.st2.copy()
        it.method(s, r.o, "reset", [])
        v = r.get(s, attr)
        if v is ZERO:
            rep.ok(r.key + ":reset", "reset restarts the count", w)
        elif is_num(v) or not is_opaque(v) or soft(v):
            rep.bad(r.key + ":reset", "after a reset %s is %s, expected 0" % (what, show(v)[:160]), w)
        else:
            rep.unsure(r.key + ":reset", "count after a reset: %s" % show(v)[:160], w)
    return fn


def dict_get(it, st, d, k):
    if isinstance(d, Dct):
        v = st.heap[d.id].items.get(const(k))
        return None if v is None else it.deref(st, v)
    return None


def loop_step(li, name):
    for loc, m in li.mus.items():
        nm = loc[-1] if loc[0] != "h" else loc[1]
        if nm == name and m is not None and li.step.get(loc) is not None:
            return sub(li.step[loc], m)
    return None


def compare_counts(rep, key, r, v, g, what, w, attr):
    d = sub(v, g)
    if d is ZERO:
        rep.ok(key, what + " is exact: " + show(g)[:160], w)
        return
    v_, g_ = show(v)[:200], show(g)[:200]
    msg = "%s: reported %s, happened %s (difference %s)" % (what, v_, g_, show(d)[:200])
    if not soft(d):
        rep.unsure(key, msg, w)
        return
    c = compare(d, ZERO) if not is_opaque(d) else ("ne" if signed(d) else "unknown")
    if c == "eq":
        rep.ok(key, what + " is exact: " + g_, w)
    elif c == "ne":
        rep.bad(key, msg, w)
    else:
        # one iteration at a time: loop carried values are free symbols inside an iteration
        gname = "G:pi" if "target" in attr else "G:q"
        for li in r.it.loopinfos[r.li0:]:
            a, b = loop_step(li, counter_field(r, attr)), loop_step(li, gname)
            a, b = a if a is not None else ZERO, b if b is not None else ZERO
            dd = sub(a, b)
            if dd is not ZERO and not is_opaque(dd) and compare(a, b) == "ne":
                rep.bad(key, "%s: an iteration of the loop at %s counts %s where %s happened" % (what, li.where, show(a)[:160],
                                                                                               show(b)[:160]), li.where)
                return
        rep.unsure(key, msg, w)


def counter_field(r, attr):
    """the field behind a counter property"""
    key = ("cf", r.c.name, attr)
    if key not in _runs:
        f = attr
        s = r.st0.copy()
        m = sym("probe", kind="num", rank=0)
        for fld, v in r.rec(s).items():
            if isinstance(v, T) and v is ZERO:
                s2 = s.copy()
                s2.heap[r.o.id] = dict(s2.heap[r.o.id])
                s2.heap[r.o.id][fld] = m
                if r.it.deref(s2, r.it.getattr(s2, r.o, attr)) is m:
                    f = fld
        _runs[key] = f
    return _runs[key]


def C01(rep):
    rep.rule = ("every evaluation of the target adds the number of points to a ghost counter during symbolic interpretation; the "
                "reported count minus the ghost, as closed forms over all loop trip counts and branches, must vanish after the first "
                "request, after any later one, and after drawing from the approximation; a reset sets the count to zero")
    every(rep, count_check(rep, "the number of target evaluations", "num_target_evals", "target_evals", "G:pi"))
    every(rep, count_check(rep, "the number of target evaluations", "num_target_evals", "target_evals", "G:pi"), DARK, dark=True)


def C02(rep):
    rep.rule = ("every draw from a proposal adds its size to a ghost counter during symbolic interpretation; the reported count minus "
                "the ghost, as closed forms over all loop trip counts and branches, must vanish after the first request, any later "
                "one, and after drawing from the approximation; a reset sets the count to zero")
    every(rep, count_check(rep, "the number of proposal samples", "num_proposal_samples", "proposal_samples", "G:q"))
    every(rep, count_check(rep, "the number of proposal samples", "num_proposal_samples", "proposal_samples", "G:q"), DARK, dark=True)


# ------------------------------------------------------------------ stored rows
RW = sym("row", kind="num", int=True, nonneg=True, rank=0)
XS = {}


def parts(t):
    return list(t.args) if t.op == "concat" else ([] if t is EMPTY else [t])


def point_like(t):
    """the proposal drawn from, for a row of a batch of drawn points: (enclosing (count, variable) pairs, distribution) or None"""
    for s in subterms(t):
        if s.op == "draw":
            return s
    return None


def enclosing(t, x, path=()):
    """collections around the subterm x, outermost first"""
    if t is x:
        return path
    if t.op in ("collect", "stack"):
        return enclosing(t.args[2], x, path + ((t.args[0], t.args[1]),)) if contains(t.args[2], x) else None
    if t.op in ("fill", "lsum"):
        return None                       # bound there
    for a in t.args:
        if isinstance(a, T) and contains(a, x):
            return enclosing(a, x, path)
    return None


def expected_logq(it, bs, row):
    """log density, at the row of the batch, of the whole proposal the batch was drawn from"""
    dr = list({s for s in subterms(bs) if s.op == "draw"})
    dr = [s for s in dr if not any(o is not s and contains(o, s) for o in dr)]
    if len(dr) != 1:
        return None
    D = dr[0].args[0]
    path = enclosing(bs, dr[0])
    if path is None:
        return None
    v = [(n, i) for n, i in path if contains(D, i)]
    if len(v) > 1:
        return None
    if not v:
        return npsem.logp(it, D, row)
    n, i = v[0]
    j = sym("j%d" % it.fresh(), kind="num", int=True, nonneg=True, rank=0)
    return log(mul(power(n, num(-1)), arr.lsum(n, j, exp(npsem.logp(it, subst(D, {i: j}), row)))))


def loopouts(t):
    return {s for s in subterms(t) if s.op == "loopout"}


def abstract(ts):
    """values loops leave, as free symbols: what holds for any value holds for these"""
    m = {}
    for t in ts:
        for s in subterms(t):
            if s.op == "loopout" and s not in m and not any(a.op == "sym" and str(a.args[0]).startswith(("$bv", "$h")) for x in s.args
                                                             if isinstance(x, T) for a in subterms(x)):
                if s not in XS:
                    k = sym("state%d" % len(XS))
                    META[k] = dict(arr.loopmeta(s))
                    XS[s] = k
                m[s] = XS[s]
    return [subst(t, m) for t in ts]


def pointwise(t):
    """densities of many points are densities of each point"""
    m = {s: mk("logp", s.args[0].args[0], index(s.args[0].args[1], s.args[1])) for s in subterms(t)
         if s.op == "at" and len(s.args) == 2 and s.args[0].op == "logp" and arr.rank(s.args[0].args[1]) == 2}
    return subst(t, m) if m else t


def row_compare(got, want):
    got, want = pointwise(got), pointwise(want)
    a, b = loopouts(got), loopouts(want)
    g, w = abstract([got, want])
    c = compare(g, w)
    if c == "ne" and not a <= b:
        # other states than expected: only different moments of the same variables are certainly different
        locs = {s.args[0].split(":", 1)[1] for s in b}
        return "ne" if all(s.args[0].split(":", 1)[1] in locs for s in a - b) else "unknown"
    return c


def batch_pairs(r):
    """(label, batch of samples, batch of weights) for what each request adds"""
    for lab, st in r.states():
        S, W = parts(r.get(st, "samples")), parts(r.get(st, "weights"))
        yield lab, S, W


def C06(rep):
    rep.rule = ("for every batch of stored samples the weight of a symbolic row, as an expression over target log density, proposal "
                "parameters and the drawn point, equals exp(log pi(x) - log q(x)) with q the whole proposal the row was drawn from, read "
                "off the draw itself")
    every(rep, c06_is, ("mpmc", "dm", "lais"))
    every(rep, c06_equal, ("mh", "rej"))
    every(rep, c06_nested, ("nested", "multinested"))
    every(rep, c06_tree, ("tp",))
    every(rep, c06_normal, ("tp",))
    every(rep, c06_leaf, ("hid",))


def c06_is(rep, r):
    it = r.it
    w = where(r.c.name, "importance_sample")
    for (lab, st), res in zip(r.states(), (r.r1, r.r2)):
        key = r.key + (":first" if st is r.st1 else ":later")
        S, W = parts(r.get(st, "samples")), parts(r.get(st, "weights"))
        fs = factored(r.get(st, "weights"))
        if any(f is not ONE for f, _x in fs):
            # stored weights scaled: by one and the same factor, or not comparable with each other
            f1, f2 = fs[0][0], fs[-1][0]
            a, b = abstract([f1, f2]) if len(fs) > 1 else (ONE, ONE)
            v = "eq" if a is b else compare(a, b) if not arr.contains_op(a, "opaque") and not arr.contains_op(b, "opaque") else "unknown"
            if v != "eq":
                (rep.bad if v == "ne" else rep.unsure)(
                    key, "weights of different requests are stored on different scales: times %s, times %s" % (show(f1)[:200], show(f2)[:200]), w)
                continue
            W = [x for _f, x in fs]
        b, c = S[-1], W[-1]
        if b.op != "collect" or c.op != "collect" or b.args[0] is not c.args[0]:
            rep.unsure(key, "stored batches not recognised: %s / %s" % (show(b)[:120], show(c)[:120]), w)
            continue
        bs, bw = b.args[2], subst(c.args[2], {c.args[1]: b.args[1]})
        row = index(bs, RW)
        lq = expected_logq(it, bs, row)
        if lq is None:
            rep.unsure(key, "proposal of the batch not recognised: %s" % show(bs)[:200], w)
            continue
        e = lambda rw: exp(sub(npsem.logp(it, PI_, rw), lq if rw is row else expected_logq(it, bs, rw)))
        want = e(row)
        n = length(bs)
        if r.c.kind == "mpmc":
            k = sym("k%d" % it.fresh(), kind="num", int=True, nonneg=True, rank=0)
            want = div(want, arr.lsum(n, k, e(index(bs, k))))
        got, exp_ = elem.el(bw, (RW,)), elem.el(want, ())
        rat = div(got, exp_)
        if is_num(rat) and rat.args[0] > 0:
            rep.ok(key, "the weight of a drawn point is target over proposal density " + lab, w)
            continue
        v = row_compare(got, exp_)
        msg = "the weight of a drawn point %s is %s, expected %s" % (lab, show(got)[:500], show(exp_)[:400])
        (rep.ok if v == "eq" else rep.bad if v == "ne" else rep.unsure)(key, msg, w)
    c06_returned(rep, r)


def factored(W, f=ONE):
    """the parts of an array, each with the number it is multiplied by"""
    if W.op == "concat":
        return [x for p in W.args for x in factored(p, f)]
    p = poly_of(W)
    if len(p) == 1:
        (m, c), = p.items()
        big = [(a, e) for a, e in m if arr.rank(a)]
        if len(big) == 1 and big[0][1] == 1 and big[0][0] is not W:
            g = num(c)
            for a, e in m:
                if not arr.rank(a):
                    g = mul(g, power(a, num(e)))
            return factored(big[0][0], mul(f, g))
    return [(f, W)]


def c06_returned(rep, r):
    """what is returned: the stored weights, or those over their sum"""
    w = where(r.c.name, "importance_sample")
    r = run(r.c, r.d, ("weights",))
    for (lab, st), res in zip(r.states(), (r.r1, r.r2)):
        key = "%s:%s:returned" % (r.key, "first" if st is r.st1 else "later")
        W, R = r.get(st, "weights"), result(r, st, res)[1]
        if R is None:
            rep.unsure(key, "no pair of samples and weights returned", w)
            continue
        c = div(R, W)
        if c is ONE or mul(c, mk("sum", W, NONE)) is ONE:
            rep.ok(key, "the returned weights %s are the stored ones%s" % (lab, "" if c is ONE else " over their sum"), w)
            continue
        # the stored weights as any array
        X = mk("fresh", const("num"), const("W%d" % r.it.fresh()), length(W))
        R = subst(R, {W: X})
        k = cnt("k%d" % r.it.fresh(), False)
        try:
            got = elem.el(R, (RW,))
            v = [row_compare(got, elem.el(x, (RW,))) for x in (X, div(X, mk("sum", X, NONE)))]
        except Unknown:
            v = ["unknown"]
        (rep.ok if "eq" in v else rep.bad if v == ["ne", "ne"] and contains(R, X) and not loopouts(R) else rep.unsure)(
            key, "a returned weight %s is %s, neither the stored weight nor its share of the sum" % (lab, show(got)[:300]), w)


def c06_normal(rep, r):
    """without an ESS target the weights returned are those of the leaves over their sum"""
    if r.c.hooked or r.c.kind != "tp":
        return
    it, key, w = r.it, r.key + ":normalised", where(r.c.name, "importance_sample")
    X, W = result(r, r.st1, r.r1)
    T_ = it.getattr(r.st1, r.o, "T")
    L = it.deref(r.st1, it.getattr(r.st1, T_, "leaves_idx"))
    if not isinstance(W, T):
        rep.unsure(key, "weights returned not resolved", w)
        return
    raw = {s for s in subterms(W) if s.op == "index" and len(s.args) == 2 and s.args[1] is L and s.args[0].op == "loopout"}
    if len(raw) != 1:
        rep.unsure(key, "weights returned not recognised: %s" % show(W)[:300], w)
        return
    S0 = raw.pop()
    m = cnt("M")
    V = subst(W, {s: s.args[0].args[2] for s in subterms(W) if s.op == "index" and len(s.args) == 2 and s.args[1] is L and
                  s.args[0].op == "store" and s.args[0].args[1] is L})
    V = subst(V, {S0: A_("Zl", m), S0.args[0]: A_("Zall", cnt("Mall")), length(S0): m})
    want = A_("Zl", m)
    tot = arr.sum_(want, NONE)
    V = subst(V, {gt0(tot): TRUE})
    if arr.contains_op(V, "loopout") or any(c.op == "gt0" for c in subterms(V)) and not any(contains(c, tot) for c in subterms(V) if c.op == "gt0"):
        rep.unsure(key, "weights returned not recognised: %s" % show(W)[:300], w)
        return
    try:
        g, e = elem.el(V, (RW,)), elem.el(mul(want, power(tot, num(-1))), (RW,))
    except Unknown as u:
        rep.unsure(key, "weights returned not resolved: %s" % u, w)
        return
    c = "eq" if g is e else compare(g, e)
    if c != "ne":
        p = wit.separate(g, e, 40)
        c = "ne" if p else c
    if c == "ne" and contains(V, A_("Zall", cnt("Mall"))) and any(
            isinstance(s, T) and s.op == "store" and s.args[2] is ZERO and k[-1] == "weights"
            for li in it.loopinfos[r.li0:r.li1] for k, s in li.step.items()):
        c = "unknown"
    (rep.ok if c == "eq" else rep.bad if c == "ne" else rep.unsure)(
        key, "the weights returned are %s" % ("those of the leaves over their sum" if c == "eq" else "not those of the leaves over their sum: %s" % show(g)[:300]), w)


def A_(n, *sh):
    return mk("fresh", const("num"), const(n), *sh)


def c06_tree(rep, r):
    """every node weighed has the weight of its own sample under the distribution it was drawn from"""
    if not r.c.hooked:
        return
    it, done = r.it, False
    for li in it.loopinfos[r.li0:r.li1]:
        st = [(loc, s.args[1], s.args[2]) for loc, m in li.mus.items() for s in [li.step.get(loc)]
              if isinstance(s, T) and s.op == "store" and len(s.args) == 3 and s.args[0] is m]
        pts = [x for x in st if x[2].op == "index" and x[2].args[0].op == "draw"]
        ws = [x for x in st if loc_kind(x[0]) and x[2].op != "index" and arr.contains_op(x[2], "logp")]
        for loc, k, p in pts:
            for loc2, k2, v in ws:
                if k is not k2:
                    continue
                done = True
                key = r.key + ":node"
                lq = expected_logq(it, p, p)
                if lq is None:
                    rep.unsure(key, "proposal of the sample not recognised: %s" % show(p)[:200], li.where)
                    continue
                want = exp(sub(npsem.logp(it, PI_, p), lq))
                try:
                    c = "eq" if v is want else row_compare(elem.el(v, (ZERO,) * (arr.rank(v) or 0)), elem.el(want, ()))
                except Unknown:
                    c = "unknown"
                if c == "unknown" and stale(v, p, set(li.mus.values())):
                    c = "ne"
                (rep.ok if c == "eq" else rep.bad if c == "ne" else rep.unsure)(
                    key, "the weight of the sample drawn for a node is %s, expected %s" % (show(v)[:400], show(want)[:300]), li.where)
    if not done:
        rep.unsure(r.key + ":node", "weighing of the drawn nodes not recognised", where(r.c.name, "importance_sample"))
    if "-leaf-" in r.c.tag:
        c06_resample(rep, r)


def loc_kind(loc):
    """an array of the sampler, not a field of its nodes"""
    return loc[0] in ("cell", "of")


def c06_leaf(rep, r):
    """every sample a leaf of the tree gets comes with its weight under the leaf's own distribution"""
    it, w = r.it, where(r.c.name, "importance_sample")
    if not r.added:
        rep.unsure(r.key + ":leaf", "no sample put into a leaf recognised", w)
    for D, x, v, stack in r.added:
        key = "%s:%s" % (r.key, stack[-1].split(".")[-1] if stack else "leaf")
        if isinstance(D, DVal):
            D = D.t
        row = arr.index(x, ZERO) if arr.rank(x) == 2 else x
        try:
            want = exp(sub(npsem.logp(it, PI_, row), npsem.logp(it, D, row)))
            got = elem.el(v, (ZERO,) * (arr.rank(v) or 0))
            c = "eq" if got is want else row_compare(got, elem.el(want, ()))
            dr = x if x.op == "draw" else row.args[0] if row.op == "index" and row.args[0].op == "draw" else None
            if stack and stack[-1].endswith(".importance_sample") and dr is not None and dr.args[0] is not D and c == "eq":
                c = "ne" if dr.args[0].op == "dist" and (D.op != "dist" or not is_opaque(D)) and not is_opaque(dr.args[0]) else "unknown"
        except Unknown as e:
            rep.unsure(key, "weight not resolved: %s" % e, w)
            continue
        (rep.ok if c == "eq" else rep.bad if c == "ne" else rep.unsure)(
            key, "a sample is put into a leaf with the weight %s, expected %s" % (show(got)[:400], show(want)[:300]), w)


def stale(v, p, mus):
    """weighed by a density that moves with what the loop stores, for a sample drawn from a fixed one"""
    dr = point_like(p)
    if dr is None:
        return False
    d = {m for m in mus if isinstance(m, T) and contains(dr.args[0], m)}
    q = subst(v, {s: ZERO for s in subterms(v) if s.op == "logp" and s.args[0] is PI_})
    return not d and any(isinstance(m, T) and contains(subst(q, {dr: const("drawn")}), m) for m in mus)


def c06_resample(rep, r):
    """all leaves drawn again at once: shifted and scaled draws of one distribution"""
    it, key = r.it, r.key + ":resample"
    for li in it.loopinfos[r.li0:r.li1]:
        if li.outer:
            continue
        S = [s for loc, s in li.step.items() if loc[-1] == "samples" and isinstance(s, T) and s.op == "ite" and arr.rank(s.args[0]) == 1]
        W = [s for loc, s in li.step.items() if loc[-1] == "weights" and isinstance(s, T) and s.op == "ite"]
        if len(S) != 1 or len(W) != 1:
            continue
        S, W = S[0], W[0]
        live, X = S.args[0], S.args[1]
        z = [s for s in subterms(X) if s.op == "unmask" and s.args[0].op == "draw"]
        if len(set(z)) != 1:
            break
        z = z[0]
        while W.op == "ite" and arr.rank(W.args[0]) == 0:
            W = W.args[2]          # before normalisation
        if W.op != "ite" or W.args[0] is not live:
            break
        got = W.args[1]
        p = poly_of(X)
        cz = [(m, c) for m, c in p.items() if any(contains(a, z) for a, _e in m)]
        if len(cz) != 1 or (z, Fraction(1)) not in cz[0][0]:
            break
        (m, c), = cz
        coef = num(c)
        for a, e in m:
            if a is not z:
                coef = mul(coef, power(a, num(e)))
        D = z.args[0].args[0]
        zr = arr.index(z, RW)
        jac = power(elem.el(coef, (RW, ZERO)), num(r.d))
        if D.op == "dist" and D.args[0] == "CMultivariateUniform":
            q = ONE
            for k in range(r.d):
                q = div(q, mul(num(2), elem.el(D.args[2], (num(k) if arr.shape(D.args[2]) != (ONE,) else ZERO,))))
        else:
            q = exp(npsem.logp(it, D, zr))
        want = div(mul(exp(npsem.logp(it, PI_, arr.index(X, RW))), jac), q)
        try:
            g, e = elem.el(got, (RW,)), want
        except Unknown as ex:
            rep.unsure(key, "weights of the redrawn leaves not resolved: %s" % ex, li.where)
            return
        v = row_compare(g, e)
        (rep.ok if v == "eq" else rep.bad if v == "ne" else rep.unsure)(
            key, "the weight of a redrawn leaf is %s, expected %s" % (show(g)[:400], show(e)[:400]), li.where)
        return
    rep.unsure(key, "weights of the redrawn leaves not recognised", where(r.c.name, "importance_sample"))


def redrawn(r):
    """(loop, mask of live leaves, redrawn samples, the standard draw, factor of the draw, weights) of a resampling of all leaves at once"""
    for li in r.it.loopinfos[r.li0:r.li1]:
        if li.outer:
            continue
        S = [s for loc, s in li.step.items() if loc[-1] == "samples" and isinstance(s, T) and s.op == "ite" and arr.rank(s.args[0]) == 1]
        W = [s for loc, s in li.step.items() if loc[-1] == "weights" and isinstance(s, T) and s.op == "ite"]
        if len(S) != 1 or len(W) != 1:
            continue
        S, W = S[0], W[0]
        X = S.args[1]
        z = {s for s in subterms(X) if s.op == "unmask" and s.args[0].op == "draw"}
        if len(z) != 1:
            return None
        z = z.pop()
        cz = [(m, c) for m, c in poly_of(X).items() if any(contains(a, z) for a, _e in m)]
        if len(cz) != 1 or (z, Fraction(1)) not in cz[0][0]:
            return None
        (m, c), = cz
        coef = num(c)
        for a, e in m:
            if a is not z:
                coef = mul(coef, power(a, num(e)))
        return li, S.args[0], X, z, coef, W
    return None


def leaf_box(rep):
    """the samples redrawn for the leaves with a bounded kernel fill the box of the leaf"""
    for c in confs():
        if not (c.kind == "tp" and "-leaf-haar" in c.tag):
            continue
        for d in dims(rep):
            def go(c=c, d=d):
                r = run(c, d)
                rep.functions |= set(r.it.functions_seen)
                leaf_box1(rep, r)
            rep.guard("resample:" + c.key(d), go)


def leaf_box1(rep, r):
    key = r.key + ":resample-box"
    g = redrawn(r)
    if g is None:
        rep.unsure(key, "redrawing of the leaves not recognised", where(r.c.name, "importance_sample"))
        return
    li, live, X, z, coef, _W = g
    D = z.args[0].args[0]
    rec = {}
    for t in subterms(X):
        if t.op == "fresh" and t.args[1].op == "key" and show(t.args[1]).split("(", 1)[-1].split(",")[0] in ("centers", "radii"):
            rec.setdefault(show(t.args[1]).split("(", 1)[-1].split(",")[0], set()).add(t)
    if {k: len(v) for k, v in rec.items()} != {"centers": 1, "radii": 1} or D.op != "dist" or D.args[0] != "CMultivariateUniform":
        rep.unsure(key, "box of the redrawn leaves not recognised", li.where)
        return
    (C,), (R_,) = rec["centers"], rec["radii"]
    v, msg = "eq", ""
    for k in range(r.d):
        side = lambda f: elem.el(f, (num(k) if arr.shape(f) != (ONE,) else ZERO,))
        cD, rD = side(D.args[1]), side(D.args[2])
        try:
            col = lambda t: elem.el(t, (RW, num(k) if arr.shape(t)[1] != ONE else ZERO)) if arr.rank(t) == 2 else elem.el(t, (RW,)) if arr.rank(t) else t
            f = col(coef)
            ext = mul(f, rD)
            rad = col(R_)
            mid = add(elem.el(subst(X, {z: arr.full((length(z), num(r.d)), ZERO)}), (RW, num(k))), mul(f, cD))
            ctr = col(C)
        except Unknown as ex:
            rep.unsure(key, "redrawn leaves not resolved: %s" % ex, li.where)
            return
        for a, b, nm in ((ext, rad, "radius"), (mid, ctr, "centre")):
            x = row_compare(a, b)
            if x != "eq":
                v, msg = (x if v != "ne" else v), "%s of the draws is %s, that of the leaf is %s" % (nm, show(a)[:300], show(b)[:200])
    (rep.ok if v == "eq" else rep.bad if v == "ne" else rep.unsure)(
        key, "a redrawn sample fills the box of its leaf" if v == "eq" else msg, li.where)


def c06_equal(rep, r):
    """chains and rejection: equal weights summing to one"""
    w = where(r.c.name, "importance_sample")
    for (lab, st), res in zip(r.states(), (r.r1, r.r2)):
        for nm, S, W in (("stored", r.get(st, "samples"), r.get(st, "weights")), ("returned", *result(r, st, res))):
            key = "%s:%s:%s" % (r.key, "first" if st is r.st1 else "later", nm)
            if S is None or W is None:
                rep.unsure(key, "no pair of samples and weights returned", w)
                continue
            n = length(S)
            try:
                got = elem.el(W, (RW,))
            except Unknown as e:
                x = varying(W)
                (rep.unsure if x is None else rep.bad)(
                    key, "weights not resolved: %s" % e if x is None else "the %s weights %s differ from sample to sample: %s" % (
                        nm, lab, show(x)[:400]), w)
                continue
            ln = length(W)
            if ln is not n and paired(r, st, S, W) == "eq":
                n = ln       # as many as the samples, even where their number has two closed forms
            v = row_compare(got, power(elem.el(n, ()), num(-1)))
            if v == "ne" and loopouts(got):
                v = "unknown" if not any(arr.contains_op(got, o) for o in ("logp", "draw")) else v
            if v == "unknown" and not is_opaque(got) and uniforms(elem.el(n, ())) and not uniforms(got) and not arr.contains_op(got, "trip") and not arr.contains_op(got, "len"):
                v = "ne"             # how many there are is random, and the weight does not know
            (rep.ok if v == "eq" else rep.bad if v == "ne" else rep.unsure)(
                key, "each %s weight %s is %s, expected one over the number of samples %s" % (nm, lab, show(got)[:300], show(n)[:200]), w)


def result(r, st, res):
    if isinstance(res, Tup) and len(res.items) == 2:
        return tuple(r.it.deref(st, x) for x in res.items)
    return None, None


def varying(W):
    """weights collected over iterations, as they differ from one to the next"""
    p = poly_of(W)
    if len(p) != 1:
        return None
    for m in p:
        for a, _e in m:
            if a.op in ("collect", "concat") and arr.rank(a) == 1:
                b = a.args[2] if a.op == "collect" else a.args[-1]
                if b.op == "collect":
                    b = b.args[2]
                try:
                    x = elem.el(b, (RW,))
                except Unknown:
                    return None
                return x if contains(x, RW) and arr.contains_op(x, "logp") and (not is_opaque(x) or soft(x)) else None
    return None


def own(r, field):
    return ("of", r.o.id, field)


def paired(r, st, S, W):
    """as many samples as weights: 'eq', 'ne' or 'unknown'.  Where a length has no closed form, every iteration adds as many of one as
    of the other"""
    a, b = length(S), length(W)
    if a is b:
        return "eq"
    c = compare(elem.el(a, ()), elem.el(b, ())) if not is_opaque(sub(a, b)) else "unknown"
    if c != "unknown":
        return c
    m = {}
    for li in r.it.loopinfos[r.li0:]:
        ms, mw = li.mus.get(own(r, "samples")), li.mus.get(own(r, "weights"))
        if ms is None or mw is None:
            continue
        if diff(li.step[own(r, "samples")], ms, li.step[own(r, "weights")], mw, m) is not ZERO or \
                subst(sub(length(li.init[own(r, "samples")]), length(li.init[own(r, "weights")])), m) is not ZERO:
            continue
        m[length(li.sols[own(r, "samples")](li.trip))] = length(li.sols[own(r, "weights")](li.trip))
    return "eq" if subst(sub(a, b), m) is ZERO else "unknown"


def diff(ss, ms, sw, mw, m):
    return subst(sub(sub(length(ss), length(ms)), sub(length(sw), length(mw))), m)


def c06_nested(rep, r):
    w = where(r.c.name, "importance_sample")
    N = cnt("Nn")
    if "L" not in r.rec(r.st1):
        rep.unsure(r.key, "the likelihoods of the stored points are not where they used to be", w)
        return
    r = run(r.c, r.d, ("L",))
    for (lab, st), res in zip(r.states(), (r.r1, r.r2)):
        for nm, W in (("stored", r.get(st, "weights")), ("returned", result(r, st, res)[1])):
            key = "%s:%s:%s" % (r.key, "first" if st is r.st1 else "later", nm)
            L = r.get(st, "L")
            if W is None:
                rep.unsure(key, "no weights returned", w)
                continue
            if W.op == "ite" and r.c.kind == "multinested":
                c0 = W.args[0]
                W = W.args[1]
                L = assume(L, c0)
            n = length(L)
            Ls = sym("Lk%d" % r.it.fresh())
            META[Ls] = {"shape": (n,)}
            W = subst(W, {L: Ls})
            k = sym("k%d" % r.it.fresh(), kind="num", int=True, nonneg=True, rank=0)
            sh = lambda i: sub(exp(neg(div(i, N))), exp(neg(div(add(i, ONE), N))))
            raw = mul(Ls, concat(arr.full((ONE,), ONE), arr.stack(sub(n, ONE), k, sh(k))))
            want = mul(raw, power(mk("sum", raw, NONE), num(-1)))
            for ix, nx in ((ZERO, "first"), (add(RW, ONE), "other")):
                try:
                    got, exp_ = elem.el(W, (ix,)), elem.el(want, (ix,))
                except Unknown as e:
                    rep.unsure(key + ":" + nx, "weights not resolved: %s" % e, w)
                    continue
                v = row_compare(got, exp_)
                msg = "the %s weight %s (%s point) is likelihood times shell over evidence" % (nm, lab, nx)
                if v == "eq":
                    rep.ok(key + ":" + nx, msg, w)
                else:
                    (rep.bad if v == "ne" else rep.unsure)(key + ":" + nx, "not so: %s: %s, expected %s" % (
                        msg, show(got)[:400], show(exp_)[:300]), w)


def assume(t, c):
    """simplified under the condition"""
    return subst(t, {c: TRUE, bnot(c): FALSE})


# ------------------------------------------------------------------ C03
def C03(rep):
    rep.rule = ("the closed forms of samples and weights, stored and returned, are decomposed in parallel: equal lengths part by part and "
                "iteration by iteration, and every row of the weights evaluates the target at the same row of the samples; where a length "
                "has no closed form, every loop iteration adds as many of one as of the other; samples and weights stored by position are "
                "stored at the same position")
    every(rep, c03)
    every(rep, c03, DARK, dark=True)
    every(rep, c03, DARK, dark="patchy")
    every(rep, c03_stores, ("tp", "hid"))


def under(t, c):
    return subst(t, {c: TRUE, bnot(c): FALSE})


def pair(r, S, W, depth=0):
    """(verdict, reason)"""
    if S is W or S is EMPTY and W is EMPTY:
        return "eq", ""
    if S.op == "ite" and W.op == "ite" and S.args[0] is W.args[0] and arr.rank(S.args[0]) in (0, None):
        return worst([pair(r, S.args[1], W.args[1], depth), pair(r, S.args[2], W.args[2], depth)])
    if S.op == "ite" and arr.rank(S.args[0]) in (0, None) and depth < 4:
        c = S.args[0]
        return worst([pair(r, S.args[1], under(W, c), depth + 1), pair(r, S.args[2], under(W, bnot(c)), depth + 1)])
    c = scalar_cond(W)
    if c is not None and depth < 6:
        return worst([pair(r, under(S, x), under(W, x), depth + 1) for x in (c, bnot(c))])
    sp, wp = parts(S), parts(scaled(W))
    if len(sp) == len(wp) > 1:
        return worst([pair(r, a, b, depth) for a, b in zip(sp, wp)])
    W1 = scaled(W)
    if S.op == "collect" and W1.op == "collect" and S.args[0] is W1.args[0]:
        i = sym("it%d" % r.it.fresh(), kind="num", int=True, nonneg=True, rank=0)
        a, b = subst(S.args[2], {S.args[1]: i}), subst(W1.args[2], {W1.args[1]: i})
        v = pair(r, a, b, depth + 1)
        if v[0] == "eq":
            return v
        if length(S) is length(W1):
            w = rows(S, W1)
            return w if w[0] != "unknown" else v
        return v
    if S.op == "index" and W1.op == "index" and S.args[1] is W1.args[1] and len(S.args) == len(W1.args) == 2:
        if arr.rank(S.args[1]) == 1 or S.args[1].op == "loopout" and "lst/" in S.args[1].args[0] or fieldname(S.args[0]) and fieldname(W1.args[0]):
            return "eq", ""          # the same rows, or the same node (what a node stores is paired, decided separately)
    if S.op == "index" and W1.op == "index" and fieldname(S.args[0]) and fieldname(W1.args[0]) and other(S.args[1], W1.args[1]):
        return "ne", "samples of node %s go with weights of node %s" % (show(S.args[1])[:150], show(W1.args[1])[:150])
    for A, B in ((S, W1), (W1, S)):
        if A.op == "slice" and B.op in ("index", "slice") and resliced(A) != resliced(B):
            X, Y = A.args[0], B.args[0] if B.op == "slice" else B
            if X.op == Y.op == "index" and fieldname(X.args[0]) and fieldname(Y.args[0]) and X.args[1] is Y.args[1] and \
                    None not in (resliced(A), resliced(B)):
                return "ne", "of the same node, other rows: %s" % " and ".join(show(t)[-60:] for t in (S, W1))
    a, b = length(S), length(W)
    if a is not b:
        if is_num(sub(a, b)):
            return "ne", "%s samples but %s weights" % (show(a)[:200], show(b)[:200])
        d = elem.el(sub(a, b), ()) if not is_opaque(sub(a, b)) else sub(a, b)
        if d is ZERO:
            return rows(S, W)
        c = compare(d, ZERO) if not is_opaque(d) else "ne" if soft(d) and signed(d) else "unknown"
        if c != "eq":
            return c, "%s samples but %s weights" % (show(a)[:200], show(b)[:200])
    return rows(S, W)


def resliced(t):
    """the part of a node's rows taken; None if it depends on more than constants"""
    if t.op != "slice":
        return (None, None, 1)
    k = tuple(None if x is None or x is NONE else (x if isinstance(x, int) else numval(x) if isinstance(x, T) and is_num(x) else "?") for x in t.args[1:])
    return None if "?" in k else (k[0] or None, k[1], 1 if k[2] is None else k[2])


def scalar_cond(W):
    for x in [W] if W.op != "poly" else [x for m in poly_of(W) for x, _e in m]:
        if x.op == "ite" and arr.rank(x.args[0]) in (0, None):
            return x.args[0]
    return None


def other(i, j):
    """certainly another position"""
    if i.op == "index" and j.op == "index" and i.args[0] is j.args[0]:
        return other(i.args[1], j.args[1])
    return i is not j and arr.rank(i) == 0 and arr.rank(j) == 0 and not arr.contains_op(sub(i, j), "opaque") and (
        is_num(sub(i, j)) or any(x.op == "sym" for x in set(subterms(i)) & set(subterms(j))))


def fieldname(t):
    """the field a map of nodes holds"""
    m = re.search(r"h/\('F', '(\w+)', '(\w+)'\)", t.args[0]) if t.op == "loopout" else None
    return m.group(2) if m else None


def scaled(W):
    """without a common factor"""
    p = poly_of(W)
    if len(p) == 1:
        for m, _c in p.items():
            a = [x for x, e in m if arr.rank(x) == 1]
            if len(a) == 1 and a[0].op in ("collect", "concat", "stack", "index"):
                return a[0]
    return W


def worst(vs):
    for k in ("ne", "unknown"):
        for v in vs:
            if v[0] == k:
                return v
    return "eq", ""


def outside_sums(t, out):
    if t.op in ("lsum", "sum", "max", "min", "mean"):
        return
    if t.op == "logp" and t.args[0] is PI_:
        out.add(t.args[1])
        return
    for a in t.args:
        if isinstance(a, T):
            outside_sums(a, out)
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, T):
                    outside_sums(x, out)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, tuple):
                            for z in y:
                                if isinstance(z, T):
                                    outside_sums(z, out)
                        elif isinstance(y, T):
                            outside_sums(y, out)


def rows(S, W):
    if not arr.contains_op(W, "logp"):
        return "eq", ""
    try:
        row = ZERO if length(S) is ONE else RW
        g = pointwise(elem.el(W, (row,)))
    except Unknown as e:
        return "unknown", "row of the weights: %s" % e
    ys = set()
    outside_sums(g, ys)
    if not ys:
        return "eq", ""
    want = index(S, row)
    for y in ys:
        if y is want:
            continue
        if y.op == "at":
            y = index(*y.args)
            if y is want:
                continue
        if y.op == "index" and y.args[0] is want.args[0] and other(y.args[1], row):
            return "ne", "the weight of sample %s is computed from the target density at sample %s" % (show(row), show(y.args[1])[:200])
        try:
            v = compare(*abstract([elem.el(y, (ZERO,)), elem.el(want, (ZERO,))]))
        except Unknown:
            v = "unknown"
        if v != "eq":
            locs = {s.args[0].split(":", 1)[1] for s in loopouts(want)}
            if v == "ne" and any(s.args[0].split(":", 1)[1] not in locs for s in loopouts(y)):
                v = "unknown"
            return (v,
                    "the weight of sample %s is computed from the target density at %s" % (show(want)[:200], show(y)[:200]))
    return "eq", ""


def c03(rep, r):
    w = where(r.c.name, "importance_sample")
    for (lab, st), res in zip(r.states(), (r.r1, r.r2)):
        for nm, S, W in (("stored", r.get(st, "samples"), r.get(st, "weights")), ("returned", *result(r, st, res))):
            key = "%s:%s:%s" % (r.key, "first" if st is r.st1 else "later", nm)
            if S is None or W is None:
                rep.unsure(key, "no pair of samples and weights returned", w)
                continue
            if nm == "returned" and S.op == "mask" and W.op == "mask":
                a, b = S.args, W.args
                v = ("eq", "") if a[1] is b[1] else ("ne" if not is_opaque(a[1]) and not is_opaque(b[1]) else "unknown",
                                                     "samples selected by %s, weights by %s" % (show(a[1])[:150], show(b[1])[:150]))
            elif nm == "returned" and one_selected(S, W):
                v = ("ne", "only one of them leaves out rows: %s and %s" % (show(S)[:150], show(W)[:150]))
            else:
                v = pair(r, S, W)
                if v[0] == "unknown" and paired(r, st, S, W) == "eq":
                    v2 = rows(S, W)
                    v = v2 if v2[0] != "unknown" else v
                if v[0] == "unknown":
                    u = unpaired(r)
                    v = ("ne", u) if u else v
            (rep.ok if v[0] == "eq" else rep.bad if v[0] == "ne" else rep.unsure)(
                key, "%s samples and weights %s%s" % (nm, lab, " are paired" if v[0] == "eq" else ": " + v[1]), w)


def one_selected(S, W):
    """exactly one of two arrays filled by the same loop is filtered by its values"""
    for a, b in ((S, W), (W, S)):
        if a.op == "mask" and a.args[0].op == "loopout" and b.op == "loopout" and b.args[0].split(":")[0] == a.args[0].args[0].split(":")[0] \
                and a.args[0] in subterms(a.args[1]):
            return True
    return False


def unpaired(r):
    """a loop in which one iteration certainly adds more of one than of the other"""
    for li in r.it.loopinfos[r.li0:]:
        ks, kw = own(r, "samples"), own(r, "weights")
        ms, mw = li.mus.get(ks), li.mus.get(kw)
        if ms is None or mw is None:
            continue
        n = sym("before%d" % r.it.fresh(), kind="num", int=True, pos=True, rank=0)
        full = {length(ms): n, length(mw): n}
        none = {ms: EMPTY, mw: EMPTY}
        for m, when in ((none, "the first"), (full, "a later")):
            a, b = (subst(length(li.step[k]) if m is full else length(subst(li.step[k], m)), m) for k in (ks, kw))
            d = sub(a, b)
            if d is not ZERO and not any(x.op in ("opaque", "loopout", "ite", "fresh") or x in li.musyms for x in subterms(a) | subterms(b)
                                         if x not in (ms, mw)) and \
                    (is_num(d) or n in poly_atoms(d) or any(x.op == "nnz" for x in poly_atoms(d))):
                return "%s iteration of the loop at %s leaves %s samples but %s weights (with equally many before)" % (
                    when, li.where, show(a)[:150], show(b)[:150])
    return None


def poly_atoms(d):
    return {x for m in poly_of(d) for x, _e in m}


def c03_stores(rep, r):
    """what one node stores, and the positions samples and weights of nodes are stored at"""
    w = where(r.c.name, "importance_sample")
    it = r.it
    if r.c.kind == "hid":
        node, s = fresh_node(r, "CHiDaiseeNode")
        x = mk("fresh", const("num"), const("x"), ONE, num(r.d))
        y = mk("fresh", const("num"), const("w"), ONE)
        if prog().cls("CHiDaiseeNode").find("add_sample") is None:
            rep.unsure(r.key + ":node", "storing of a sample in a node not recognised", w)
            return
        it.method(s, node, "add_sample", [it.box(s, x), it.box(s, y)])
        pair_fields(rep, r, s, node, "samples", "weights", w)
        return
    if not r.c.hooked:
        return
    node, s = fresh_node(r, "CTreePyramidNode")
    c = prog().cls("CTreePyramidNode")
    if c.find("sample") and c.find("weigh"):
        it.method(s, node, "sample", [DVal(PROP)])
        it.method(s, node, "weigh", [DVal(PI_), DVal(PROP)])
        pair_fields(rep, r, s, node, "coords_hist", "weight_hist", w)
    else:
        rep.unsure(r.key + ":node", "sampling of a node not recognised", w)
    done = False
    for li in it.loopinfos[r.li0:r.li1]:
        st = [(loc, t.args[1], t.args[2]) for loc, m in li.mus.items() for t in [li.step.get(loc)]
              if loc_kind(loc) and isinstance(t, T) and t.op == "store" and len(t.args) == 3 and t.args[0] is m]
        pts = [x for x in st if x[2].op == "index" and x[2].args[0].op == "draw"]
        ws = [x for x in st if x[2].op != "index" and arr.contains_op(x[2], "logp")]
        for _l, k, _p in pts:
            for _l2, k2, _v in ws:
                done = True
                v = "eq" if k is k2 else "ne" if not is_opaque(sub(k, k2)) and not loopouts(sub(k, k2)) else "unknown"
                (rep.ok if v == "eq" else rep.bad if v == "ne" else rep.unsure)(
                    r.key + ":position", "the sample of a node is stored at %s, its weight at %s" % (show(k)[:200], show(k2)[:200]), li.where)
    if not done:
        rep.unsure(r.key + ":position", "storing of the samples of nodes not recognised", w)
    # entries of a node's record that are replaced: the sample and the weight, or neither
    at_, odd = {"coords_hist": {}, "weight_hist": {}}, False
    for li in it.loopinfos[r.li0:r.li1]:
        for loc in li.mus:
            f = loc[1][2] if loc[0] == "h" and isinstance(loc[1], tuple) and len(loc[1]) == 3 else None
            t = li.step.get(loc)
            if f in at_ and isinstance(t, T) and t.op == "store" and t.args[0] is li.mus[loc] and isinstance(t.args[1], tuple) and len(t.args[1]) == 2:
                k = tuple(subst(x, {li.idx: sym("each", kind="num", int=True, rank=0)}) if li.idx is not None else x for x in t.args[1])
                at_[f][(k, li.trip)] = li.where
            elif f in at_ and isinstance(t, T) and not (t is li.mus[loc] or t.op in ("loopout", "fill") or t.op == "store" and
                                                        isinstance(t.args[2], T) and t.args[2].op == "concat"):
                odd = True
    a, b = at_["coords_hist"], at_["weight_hist"]
    for k in set(a) | set(b):
        if k in a and k in b:
            rep.ok(r.key + ":replaced", "the sample and the weight of the same entry are replaced", a[k])
        else:
            (rep.unsure if odd else rep.bad)(r.key + ":replaced", "only the %s of an entry of a node (position %s) is replaced" % (
                "sample" if k in a else "weight", show(k[0][1])[:100]), (a if k in a else b)[k])


def fresh_node(r, cls):
    s = r.st0.copy()
    t = sym("node%d" % r.it.fresh(), kind="objid", rank=0)
    META[t]["shape"] = ()
    return SObj(prog().cls(cls), t), s


def pair_fields(rep, r, s, node, f, g, w):
    a, b = (r.it.deref(s, r.it.getattr(s, node, x)) for x in (f, g))
    la, lb = [length(x) for x in parts(a)], [length(x) for x in parts(b)]
    S, W = (r.it.deref(r.st0, r.it.getattr(r.st0, node, x)) for x in (f, g))
    m = {length(S): cnt("nold")}
    m[length(W)] = m[length(S)]
    la, lb = [subst(x, m) for x in la], [subst(x, m) for x in lb]
    if la == lb:
        rep.ok(r.key + ":node", "a node adds as many samples as weights, in the same order", w)
    elif len(la) == len(lb) and not any(is_opaque(x) for x in la + lb):
        rep.bad(r.key + ":node", "a node stores samples in blocks of %s and weights in blocks of %s" % (
            ", ".join(show(x) for x in la), ", ".join(show(x) for x in lb)), w)
    else:
        rep.unsure(r.key + ":node", "blocks of samples %s, of weights %s" % (", ".join(show(x)[:80] for x in la), ", ".join(show(x)[:80] for x in lb)), w)

# ------------------------------------------------------------------ C07
BINDERS = ("collect", "stack", "lsum")


def alpha(t):
    """with bound variables named by depth"""
    lev, done = {}, {}

    def order(x, seen, out):
        if x in seen:
            return
        seen.add(x)
        for y in direct(x):
            order(y, seen, out)
        if x.op in BINDERS:
            out.append(x)
    for _ in range(40):
        out = []
        order(t, set(), out)
        for b in out:
            n = 1 + max([lv(y) for y in direct(b)] + [0])
            v = sym("$a%d" % n, kind="num", int=True, nonneg=True, rank=0)
            if b.args[1] is not v:
                t = subst(t, {b: mk(b.op, b.args[0], v, subst(b.args[2], {b.args[1]: v}))})
                break
        else:
            return t
    return t


_lv = {}


def lv(t):
    """binder depth"""
    if t not in _lv:
        _lv[t] = max([lv(y) for y in direct(t)] + [0]) + (t.op in BINDERS)
    return _lv[t]


def direct(t):
    out = []

    def go(a):
        for x in a:
            if isinstance(x, T):
                out.append(x)
            elif isinstance(x, tuple):
                go(x)
    go(t.args)
    return out


def same_term(a, b):
    return a is b or alpha(a) is alpha(b)


def loop_of(r, t):
    """the loop a left over value comes from, and the variable"""
    lid, loc = t.args[0].split(":", 1)
    for li in r.it.loopinfos:
        if str(li.lid) == lid:
            for k, m in li.mus.items():
                if m is not None and li.sols.get(k) is not None: 
                    try:
                        if li.sols[k](t.args[1] if len(t.args) > 1 else li.trip) is t:
                            return li, k
                    except Exception:
                        continue
    return None, None


def unify(r, t, m):
    """values left by the same loop started from the same values are the same"""
    by = {}
    for s in sorted(loopouts(t), key=lambda s: s.args[0]):
        lid, loc = s.args[0].split(":", 1)
        for li in r.it.loopinfos:
            if str(li.lid) == lid:
                by.setdefault(li.node, []).append((li, loc, s))
    out = {}
    for node, l in by.items():
        for j, (la, ka, sa) in enumerate(l):
            for lb, kb, sb in l[j + 1:]:
                if sb not in out and la is not lb and same_loc(la, ka, lb, kb, m) and subst(sb.args[1], m) is subst(sa.args[1], m):
                    out[sb] = out.get(sa, sa)
    return subst(t, out) if out else t


def same_loc(la, ka, lb, kb, m):
    A, B = list(la.mus), list(lb.mus)
    if len(A) != len(B):
        return False
    nm = lambda loc: "/".join(str(x) for x in loc)
    ia, ib = [i for i, x in enumerate(A) if nm(x) == ka], [i for i, x in enumerate(B) if nm(x) == kb]
    if not ia or ia != ib:
        return False
    ren = dict(m)
    for x, y in zip(A, B):
        if la.mus[x] is not None and lb.mus[y] is not None:
            ren[lb.mus[y]] = la.mus[x]
    if la.idx is not None and lb.idx is not None:
        ren[lb.idx] = la.idx
    todo, seen = [ia[0]], set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        a, b = A[i], B[i]
        for p, q in ((la.init[a], lb.init[b]), (la.step[a], lb.step[b])):
            if not isinstance(p, T) or not isinstance(q, T) or not same_term(subst(p, m), subst(subst(q, ren), m)):
                return False
        todo += [j for j, x in enumerate(A) if la.mus[x] is not None and contains(la.step[a], la.mus[x])]
    return True


def kept(r, new, old, depth=0):
    """are the rows of old the first rows of new?  (verdict, reason)"""
    if new is old or old is EMPTY:
        return "eq", ""
    for t in (new, old):
        if t.op == "ite" and arr.rank(t.args[0]) in (0, None) and depth < 6:
            c = t.args[0]
            out = []
            for x, y in ((c, under(new, c)), (bnot(c), under(new, bnot(c)))):
                if x is bnot(gt0(length(old))) or x is mk("eq0", length(old)):
                    continue
                out.append(kept(r, y, under(old, x), depth + 1))
            return worst(out)
    p, q = parts(new), parts(old)
    if len(p) >= len(q) and all(same_term(a, b) for a, b in zip(p, q)):
        return "eq", ""
    if new.op == "loopout":
        li, k = loop_of(r, new)
        if li is not None and depth < 6:
            return worst([kept(r, li.init[k], old, depth + 1), kept(r, li.step[k], li.mus[k], depth + 1)])
    if any(arr.contains_op(x, "opaque") for x in p):
        return "unknown", show(new)[:200]
    for j in range(1, len(p)):
        if p[j] is q[0] and not is_num(length(concat(*p[:j]))):
            return "ne", "%s samples come before the earlier ones" % show(length(concat(*p[:j])))[:100]
    if not any(contains(x, y) for x in p for y in q) and not any(x.op == "loopout" for x in p) and \
            not any(x.op == "loopout" for y in q for x in [y] if y not in r.allmus()):
        return "ne", "the earlier samples are not among the new ones: %s" % show(new)[:200]
    if p and p[0].op in ("index", "slice", "mask") and p[0].args[0] is old and len(q) == 1 and length(p[0]) is not length(old) and \
            not loopouts(length(p[0])):
        return "ne", "of the earlier samples only %s stay" % show(p[0])[:200]
    return "unknown", show(new)[:200]


def C07(rep):
    rep.rule = ("a request for no more samples than are stored, interpreted on the state an arbitrary request leaves: its loops must not be "
                "entered, no proposal be sampled, and what is stored be returned as it is; every loop that draws must be left once enough "
                "samples are stored; the closed form of the stored samples must start with what was stored before")
    every(rep, c07)


def c07(rep, r):
    it, w = r.it, where(r.c.name, "importance_sample")
    flat = r.c.kind not in ("tp", "hid")
    # nothing to do
    s = r.st1.copy()
    R1 = result(r, r.st1, r.r1)[0]
    S1 = r.get(s, "samples") if flat else R1
    if S1 is None:
        rep.unsure(r.key + ":idle", "no samples returned", w)
        return
    n = length(S1)
    if r.c.kind == "tp":
        m = prog().cls(r.c.name).find("_get_nsamples")
        n = it.deref(s, it.method(s.copy(), r.o, "_get_nsamples", [])) if m else n
    k = cnt("kmore", False)
    l0 = len(it.loopinfos)
    res = it.method(s, r.o, "importance_sample", [DVal(PI_), sub(n, k), n_("timeout3")])
    R = result(r, s, res)[0]
    dq = sub(s.heap["G:q"], r.st1.heap["G:q"])
    ran, skipped = False, {}
    for li in it.loopinfos[l0:]:
        if li.outer or not draws(it, li):
            continue
        m = {mu: li.init[l] for l, mu in li.mus.items() if mu is not None}
        v = None
        if li.kind == "while":
            c = [subst(unify(r, subst(li.cond, m), m), {k: x}) for x in (ZERO, ONE)]
            if all(x is FALSE for x in c):
                skipped[li.trip] = ZERO
                continue
            v = "ne" if any(x is not FALSE and not is_opaque(x) for x in c) else "unknown"
            v = "unknown" if any(not is_opaque(b) and contains(b, k) for b in li.breaks) else v
            msg = "with enough samples stored an iteration of %s is still run if %s" % (li.where, show(c[0])[:200])
        else:
            t = li.range if isinstance(li.range, T) else None
            if t is None or t is ZERO:
                continue
            t0 = elem.el(t, ()) if not is_opaque(t) else t
            pos_ = ite(gt0(t0), t0, ZERO)
            v = "unknown"
            if not arr.contains_op(t0, "opaque"):
                try:
                    v = compare(*abstract([pos_, ZERO]))
                except Unknown:
                    pass
            if v == "eq":
                continue
            msg = "with enough samples stored %s iterations of %s are run" % (show(t)[:200], li.where)
        ran = True
        (rep.bad if v == "ne" else rep.unsure)(r.key + ":idle", msg, li.where)
    dq = subst(dq, skipped)
    if not ran and skipped:
        (rep.ok if dq is ZERO else rep.unsure)(r.key + ":idle", "with enough samples stored nothing is drawn", w)
    elif not ran:
        same = R is not None and same_term(R, S1) and (not flat or same_term(r.get(s, "samples"), S1))
        if dq is ZERO and same:
            rep.ok(r.key + ":idle", "with enough samples stored nothing is drawn and the stored samples are returned", w)
        elif dq is not ZERO and (not is_opaque(dq) or soft(dq)) and compare_safe(dq, ZERO) == "ne":
            rep.bad(r.key + ":idle", "with enough samples stored %s proposal samples are drawn" % show(dq)[:200], w)
        elif R is not None and flat and (R is EMPTY or kept(r, R, S1)[0] == "ne"):
            rep.bad(r.key + ":idle", "with enough samples stored the request returns %s instead of the stored %s" % (
                show(R)[:200], show(S1)[:200]), w)
        else:
            rep.unsure(r.key + ":idle", "drawn %s, returned %s" % (show(dq)[:100], "nothing" if R is None else show(R)[:200]), w)
    # every later iteration too
    for li in it.loopinfos[r.li0:l0]:
        if li.outer or not draws(it, li):
            continue
        nq = r.nreq if it.loopinfos.index(li) < r.li1 else r.nreq2
        key = r.key + (":first" if nq is r.nreq else ":later") + ":while-missing"
        ms = li.mus.get(own(r, "samples"))
        if ms is None:
            continue
        if li.kind == "while":
            c = [subst(li.cond, {nq: sub(length(ms), x)}) for x in (ZERO, ONE)]
            if all(x is FALSE for x in c):
                rep.ok(key, "samples are drawn only while fewer than requested are stored", li.where)
            elif any(contains(b, nq) for b in li.breaks) or any(is_opaque(x) for x in c):
                rep.unsure(key, "drawing goes on while %s" % show(li.cond)[:200], li.where)
            else:
                rep.bad(key, "with as many samples stored as requested, drawing goes on while %s" % show(
                    [x for x in c if x is not FALSE][0])[:200], li.where)
        elif isinstance(li.range, T) and sub(length(li.step[own(r, "samples")]), length(ms)) is ONE:
            d = sub(add(li.range, length(li.init[own(r, "samples")])), nq)
            if d is ZERO:
                rep.ok(key, "as many samples are drawn as are missing", li.where)
            else:
                v = compare_safe(d, ZERO)
                pos_ = signed(d) and all(c > 0 for c in poly_of(d).values())
                (rep.bad if v == "ne" and pos_ else rep.unsure)(
                    key, "%s more iterations than samples are missing" % show(d)[:200], li.where)
        else:
            rounds(rep, r, key, li, ms, nq)
    # what was stored stays
    if not flat:
        return
    out = []
    for li in it.loopinfos[r.li0:l0]:
        ms = li.mus.get(own(r, "samples"))
        if ms is not None:
            out.append(kept(r, li.step[own(r, "samples")], ms))
    out.append(kept(r, r.get(r.st2, "samples"), r.get(r.st1, "samples")))
    v = worst(out)
    (rep.ok if v[0] == "eq" else rep.bad if v[0] == "ne" else rep.unsure)(
        r.key + ":kept", "what was stored before stays in front" if v[0] == "eq" else "not so: what was stored before stays in front: " + v[1], w)
    for lab, st, res in (("first", r.st1, r.r1), ("later", r.st2, r.r2)):
        R, S = result(r, st, res)[0], r.get(st, "samples")
        if R is None:
            rep.unsure("%s:%s:returned" % (r.key, lab), "no samples returned", w)
            continue
        if same_term(R, S):
            rep.ok("%s:%s:returned" % (r.key, lab), "all stored samples are returned", w)
        else:
            a = length(R), length(S)
            v = compare_safe(*a)
            (rep.bad if v == "ne" and not loopouts(sub(*a)) else rep.unsure)(
                "%s:%s:returned" % (r.key, lab), "%s samples are returned of %s stored" % tuple(show(x)[:200] for x in a), w)


def rounds(rep, r, key, li, ms, nq):
    """the missing samples dealt out evenly: too many by less than one each"""
    inn = [lj for lj in r.it.loopinfos if lj.outer and str(lj.outer[-1]) == str(li.lid) and lj.mus.get(own(r, "samples")) is not None]
    if len(inn) != 1 or not isinstance(li.range, T) or not isinstance(inn[0].range, T) or contains(inn[0].range, li.idx) or \
            sub(length(inn[0].step[own(r, "samples")]), length(inn[0].mus[own(r, "samples")])) is not ONE:
        rep.unsure(key, "loop not recognised", li.where)
        return
    i = r.it.fresh()
    g, have, want = cnt("groups%d" % i), cnt("have%d" % i), cnt("missing%d" % i)
    h = length(li.init[own(r, "samples")])
    per = subst(subst(inn[0].range, {h: have} if h is not ZERO else {}), {li.range: g})
    # the number stored may have been multiplied out
    per = subst(per, {x: have for x in subterms(per) if h is not ZERO and x is h})
    if h is not ZERO:
        d = poly_of(h)
        if len(d) == 1 and not is_num(h):
            (m, c), = d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                per = subst(per, {m[0][0]: have})
    per = subst(per, {nq: add(have if h is not ZERO else ZERO, want)})
    over = sub(mul(g, per), sub(add(want, g), ONE))
    e = arr.maximum(over, ZERO) if hasattr(arr, "maximum") else mk("maximum", over, ZERO)
    v = "unknown" if is_opaque(e) or arr.contains_op(e, "trip") else compare_safe(e, ZERO)
    (rep.ok if v == "eq" else rep.bad if v == "ne" else rep.unsure)(
        key, "%s rounds of %s each add %s the %s samples missing" % (show(g), show(per)[:150], "no more than the even share of" if v == "eq" else "more than an even share of", show(want)), li.where)


def compare_safe(a, b):
    try:
        if arr.contains_op(a, "opaque") or arr.contains_op(b, "opaque"):
            return "unknown"
        return compare(*abstract([elem.el(a, ()), elem.el(b, ())]))
    except Unknown:
        return "unknown"


def draws(it, li):
    """a proposal is sampled inside"""
    a, b = li.ev
    return any(e.kind in ("draw", "eval") for e in it.events[a:b])


# ------------------------------------------------------------------ C13
def C13(rep):
    rep.rule = ("the effective sample size and acceptance rate methods, interpreted on symbolic samples, weights and counter, must return "
                "the defining expression; for the tree samplers the expression is formed on what they return and on one node's history")
    every(rep, c13)


def judge(rep, key, what, got, want, w):
    if got is None or not isinstance(got, T):
        rep.unsure(key, "%s not resolved: %s" % (what, got), w)
        return
    try:
        g, e = elem.el(got, (ZERO,) * (arr.rank(got) or 0)), elem.el(want, ())
        v = "eq" if g is e else row_compare(g, e)
    except Unknown as x:
        rep.unsure(key, "%s not resolved: %s" % (what, x), w)
        return
    if v == "ne" and (arr.contains_op(g, "opaque")):
        v = "unknown"
    (rep.ok if v == "eq" else rep.bad if v == "ne" else rep.unsure)(
        key, "%s is %s%s" % (what, show(got)[:300], "" if v == "eq" else ", expected " + show(want)[:300]), w)


def counted(r, st, q):
    """the state with symbols for the counters"""
    s = st.copy()
    rec = s.heap[r.o.id] = dict(s.heap[r.o.id])
    for f, v in r.rec(r.st0).items():
        if v is ZERO:
            rec[f] = cnt("count:" + f)
    rec[counter_field(r, "num_proposal_samples")] = q
    return s


def rate(rep, r, got, n, q):
    w = where(r.c.name, "get_acceptance_rate")
    if isinstance(got, T) and not arr.contains_op(got, "opaque") and not contains(got, q):
        rep.bad(r.key + ":rate", "the acceptance rate %s does not depend on the number of proposal samples" % show(got)[:300], w)
    else:
        judge(rep, r.key + ":rate", "the acceptance rate", got, div(n, q), w)


def kish(W):
    return div(power(arr.sum_(W), num(2)), arr.sum_(mul(W, W)))


def c13(rep, r):
    it = r.it
    w = lambda m: where(r.c.name, m)
    n, q = cnt("nst"), cnt("nq")
    S, W = mk("fresh", const("num"), const("S"), n, num(r.d)), mk("fresh", const("num"), const("W"), n)

    def ask(st, m):
        s = st.copy()
        if prog().cls(r.c.name).find(m) is None:
            return None
        return it.deref(s, it.method(s, r.o, m, []))
    rec = r.rec(r.st0)
    if r.c.kind in ("tp",):
        if r.c.hooked:
            split_ess(rep, r)
            return
        hk = it.hooks.get("CTreePyramidSampling._get_samples")
        if prog().cls(r.c.name).find("_get_samples") is None:
            rep.unsure(r.key, "where the samples are collected is not recognised", w("get_NESS"))
            return
        s = counted(r, r.st1, q)
        it.hooks["CTreePyramidSampling._get_samples"] = lambda it, f, a, kw, st: Tup([it.box(st, S), it.box(st, W)])
        try:
            judge(rep, r.key + ":ness", "the effective sample size", ask(s, "get_NESS"), div(kish(W), n), w("get_NESS"))
            rate(rep, r, ask(s, "get_acceptance_rate"), n, q)
        finally:
            if hk is None:
                del it.hooks["CTreePyramidSampling._get_samples"]
            else:
                it.hooks["CTreePyramidSampling._get_samples"] = hk
        return
    if "samples" not in rec or "weights" not in rec:
        rep.unsure(r.key, "samples and weights are not stored where they used to be", w("get_NESS"))
        return
    s = counted(r, r.st0, q)
    s.heap[r.o.id].update({"samples": it.box(s, S), "weights": it.box(s, W)})
    for m in ("get_approx_NESS", "get_NESS"):
        if m == "get_NESS" and r.c.kind in ("mh", "rej"):
            continue                    # autocorrelation based
        want = div(kish(W), n)
        if m == "get_NESS" and r.c.kind in ("nested", "multinested"):
            want = div(exp(neg(arr.sum_(mul(W, log(W))))), n)
        got = ask(s, m)
        if got is None:
            rep.unsure(r.key + ":" + m, "no %s" % m, w(m))
            continue
        judge(rep, r.key + ":" + m, "the effective sample size by %s" % m, got, want, w(m))
    rate(rep, r, ask(s, "get_acceptance_rate"), n, q)
    if r.c.kind == "hid":
        node, s = fresh_node(r, "CHiDaiseeNode")
        x = mk("fresh", const("num"), const("x"), ONE, num(r.d))
        y = mk("fresh", const("num"), const("w"), ONE)
        if prog().cls("CHiDaiseeNode").find("add_sample"):
            it.method(s, node, "add_sample", [it.box(s, x), it.box(s, y)])
            g = it.deref(s, it.getattr(s, node, "ESS"))
            Wn = it.deref(s, it.getattr(s, node, "weights"))
            judge(rep, r.key + ":node", "the effective sample size of a leaf", g, kish(Wn), where("CHiDaiseeNode", "add_sample"))


def split_ess(rep, r):
    """a leaf whose history is effective enough is not split"""
    it, key = r.it, r.key + ":split"
    if not r.c.hooked or not r.c.tag.endswith("-ess"):
        return
    f = prog().cls("CTreePyramid").find("expand") if prog().cls("CTreePyramid") else None
    if f is None:
        rep.unsure(key, "splitting of a leaf not recognised", where(r.c.name, "_expand_nodes"))
        return
    node, s = fresh_node(r, "CTreePyramidNode")
    t = n_("target")
    a = it.deref(s, it.getattr(s, node, "weight_hist"))
    res = it.method(s, it.getattr(s, r.o, "T"), "expand", [node], {"ess_target": t, "n_min": ZERO})
    W = mk("fresh", const("num"), const("Wh"), cnt("nh"))
    c = none_if(res)
    if c is None:
        rep.unsure(key, "when a leaf is not split is not recognised: %s" % repr(res)[:200], where("CTreePyramid", "expand"))
        return
    c = subst(subst(c, {a: W}), {length(a): cnt("nh")})
    want = gt0(sub(kish(W), mul(t, cnt("nh"))))
    got = ite(c, ONE, ZERO)
    try:
        v = compare(elem.el(got, ()), elem.el(ite(want, ONE, ZERO), ()))
    except Unknown:
        v = "unknown"
    (rep.ok if v == "eq" else rep.bad if v == "ne" else rep.unsure)(
        key, "a leaf is left as it is if %s%s" % (show(c)[:300], "" if v == "eq" else ", expected if " + show(want)[:300]),
        where("CTreePyramid", "expand"))


def none_if(v):
    """the condition under which the value is None"""
    if isinstance(v, Uni):
        for g, x, y in ((v.c, v.a, v.b), (bnot(v.c), v.b, v.a)):
            if x is NONE:
                k = none_if(y)
                return g if k is None else bor(g, k)
            k = none_if(x)
            if k is not None and y is not NONE and none_if(y) is None:
                return band(g, k)
    if isinstance(v, T) and v.op == "ite":
        if v.args[1] is NONE:
            return v.args[0]
        if v.args[2] is NONE:
            return bnot(v.args[0])
    return None


# ------------------------------------------------------------------ C16
def C16(rep):
    rep.rule = ("one step of the loop that stores samples, on arbitrary live points and likelihoods: the stored row is the live point at the "
                "position of the smallest likelihood (of the cluster worked on), the recorded likelihood is that smallest one, and just that "
                "position of points and likelihoods is overwritten by a drawn point and the target density at that very point; at the first "
                "step the likelihoods are the target densities at the live points; the record grows as the samples do; a request for another target "
                "works with densities under that one")
    every(rep, c16, ("nested", "multinested"))
    every(rep, c16_targets, ("nested", "multinested"))


def branches(t, cs=()):
    """(conditions, value) for every choice of scalar conditions at the top"""
    if t.op == "ite" and (arr.rank(t.args[0]) in (0, None) or arr.rank(t.args[0]) == 1 and arr.length(t.args[0]) is ONE and arr.length(t) is not ONE):
        yield from branches(t.args[1], cs + (t.args[0],))
        yield from branches(t.args[2], cs + (bnot(t.args[0]),))
    else:
        yield cs, t


def given(t, cs):
    for c in cs:
        t = under(t, c)
    return t


def least(K, mv):
    """(the array the position is the smallest of, its rows' positions or None) for K = position of the smallest value"""
    if K.op == "index" and K.args[0].op == "where1" and K.args[1].op == "idx":
        a = K.args[1].args[0]
        if a.op == "mask" and a.args[0] is mv and a.args[1] is K.args[0].args[0]:
            return a, K.args[1].args[1]
        return a, "other"
    if K.op == "idx":
        return K.args[0], K.args[1]
    return None, None


def c16_targets(rep, r):
    """asked for samples of another target"""
    c16(rep, Run(r.c, r.d, other=PI2), "another-target", PI2)


def c16(rep, r, only=None, target=None):
    it, target = r.it, target or PI_
    for label, lis in (("first", it.loopinfos[r.li0:r.li1]), (only or "later", it.loopinfos[r.li1:])):
        if only and label != only:
            continue
        key, w = "%s:%s" % (r.key, label), where(r.c.name, "importance_sample")
        lis = [li for li in lis if li.mus.get(own(r, "samples")) is not None]
        inner = [li for li in lis if not any(str(li.lid) in map(str, o.outer) for o in lis)]
        if len(inner) != 1:
            rep.unsure(key, "the loop that stores samples is not recognised", w)
            continue
        li, w = inner[0], inner[0].where
        ms = li.mus[own(r, "samples")]
        done = False
        for cs, S in branches(li.step[own(r, "samples")]):
            p = parts(S)
            X = p[-1]
            X = X.args[0] if X.op == "single" else X
            if X.op != "index" or len(X.args) != 2 or X.args[0] not in li.mus.values():
                # a block of rows: its only row
                x2 = index(p[-1], ZERO)
                X = x2 if arr.rank(p[-1]) == 2 and length(p[-1]) is ONE else X
            if X is ms or X.op != "index" or len(X.args) != 2 or X.args[0] not in li.mus.values():
                drawn = [y for _c, y in branches(X)]
                new = all(any(z.op == "draw" and contains(z, li.idx) for z in subterms(y)) for y in drawn) and not arr.contains_op(X, "opaque")
                (rep.bad if new else rep.unsure)(key, "what is stored is %s: %s" % ("the new point, not the live point it replaces" if new else "not recognised", show(X)[:200]), w)
                continue
            done = True
            retire(rep, r, key, li, cs, X, w, target)
        if own(r, "L") in li.mus and li.mus[own(r, "L")] is not None:
            d = sub(sub(length(li.step[own(r, "L")]), length(li.mus[own(r, "L")])), sub(length(li.step[own(r, "samples")]), length(ms)))
            (rep.ok if d is ZERO else rep.bad if is_num(d) else rep.unsure)(
                key + ":record", "a step records %s more likelihoods than samples" % show(d)[:100], w)
        retry(rep, r, key, li)


def retire(rep, r, key, li, cs, X, w, target):
    it = r.it
    ml, K = X.args
    liv = [loc for loc, m in li.mus.items() if m is ml][0]
    # the likelihoods: the other array overwritten at one position by densities
    vals = [loc for loc, m in li.mus.items() if m is not None and m is not ml and isinstance(li.step[loc], T) and loc[0] != "h" and
            any(s.op == "store" and s.args[0] is m for _c, s in branches(li.step[loc]))]
    if not vals and not is_opaque(K):
        a = least(K, None)[0]
        ms = {m for m in li.mus.values() if m is not None}
        if a is not None and not any(x in ms for x in subterms(a)) and any(s.op == "store" and s.args[0] is ml for _c, s in branches(li.step[liv])):
            rep.bad(key + ":replaced", "the likelihood of the replaced live point is never replaced", w)
            return
    if len(vals) != 1:
        rep.unsure(key, "the likelihoods of the live points are not recognised", w)
        return
    vloc = vals[0]
    mv = li.mus[vloc]
    a, how = least(K, mv)
    if a is None:
        v = "unknown" if arr.contains_op(K, "opaque") or loopouts(K) else "ne"
        (rep.bad if v == "ne" and not any(x.op == "idx" for x in subterms(K)) else rep.unsure)(
            key + ":worst", "the live point stored is that at %s, expected that of lowest likelihood" % show(K)[:200], w)
        return
    lowest = how is mk("key", const("argmin")) or isinstance(how, T) and how.op == "key" and str(how.args[0].args[0] if isinstance(
        how.args[0], T) else how.args[0]) == "argmin"
    sub_ = a is mv or a.op == "mask" and a.args[0] is mv and r.c.kind == "multinested"
    if K.op == "idx" and a is not mv and a.op == "mask" and how != "other":
        rep.bad(key + ":worst", "the position of the lowest likelihood among %s is used as a position among all live points" % show(a)[:150], w)
    elif lowest and sub_ and not (how == "other"):
        rep.ok(key + ":worst", "the live point stored is that of lowest likelihood", w)
    elif how != "other" and not lowest and not arr.contains_op(K, "opaque"):
        rep.bad(key + ":worst", "the live point stored is that at %s, expected that of lowest likelihood" % show(K)[:200], w)
    else:
        rep.unsure(key + ":worst", "the live point stored is that at %s" % show(K)[:200], w)
    # its likelihood
    lstep = li.step.get(own(r, "L"))
    if lstep is None or not isinstance(lstep, T) or li.mus.get(own(r, "L")) is None:
        rep.unsure(key + ":likelihood", "the likelihood recorded is not recognised", w)
    else:
        for c2, Ls in branches(given(lstep, cs)):
            x = parts(Ls)[-1]
            if x is li.mus[own(r, "L")]:
                (rep.bad if len(parts(Ls)) > 1 else rep.unsure)(
                    key + ":likelihood", "the likelihood recorded is not put behind the earlier ones: %s" % show(Ls)[:200], w)
                continue
            try:
                x = index(x, ZERO)
            except Exception:
                pass
            lowv = [arr.reduce("min", a), index(mv, K)]
            if any(x is y for y in lowv):
                rep.ok(key + ":likelihood", "the likelihood recorded is the lowest one", w)
            else:
                bad = not arr.contains_op(x, "opaque") and not loopouts(x) and (contains(x, mv) or not any(
                    y in li.mus.values() for y in subterms(x)))
                (rep.bad if bad else rep.unsure)(key + ":likelihood", "the likelihood recorded is %s, expected %s" % (show(x)[:200], show(lowv[0])[:150]), w)
    # its replacement
    for (c1, P), (c2, V) in zip(branches(given(li.step[liv], cs)), branches(given(li.step[vloc], cs))):
        ok = P.op == "store" and V.op == "store" and len(P.args) == 3 and len(V.args) == 3 and P.args[0] is ml and V.args[0] is mv
        if not ok:
            gone = [nm for nm, t, m in (("the live point", P, ml), ("its likelihood", V, mv)) if t is m]
            when = set(c1) | set(c2)
            (rep.bad if gone and all(arr.contains_op(c, "draw") and not arr.contains_op(c, "clock") for c in when) else rep.unsure)(
                key + ":replaced", "replacement not recognised" if not gone else "%s is not replaced" % " and ".join(gone), w)
            continue
        for nm, t in (("live point", P), ("likelihood", V)):
            k = t.args[1]
            v = "eq" if k is K else "ne" if not arr.contains_op(sub(k, K), "opaque") and not loopouts(sub(k, K)) and arr.rank(k) == 0 else "unknown"
            (rep.ok if v == "eq" else rep.bad if v == "ne" else rep.unsure)(
                key + ":replaced", "the %s replaced is that at %s, the point stored that at %s" % (nm, show(k)[:150], show(K)[:150]), w)
        todo = [(b, v) for _c, b, v in together(P.args[2], V.args[2])]
        for b, v in todo:
            want = exp(npsem.logp(it, target, b))
            try:
                x = "eq" if v is want else row_compare(elem.el(v, (ZERO,) * (arr.rank(v) or 0)), elem.el(want, ()))
            except Unknown:
                x = "unknown"
            if x == "unknown" and not arr.contains_op(v, "logp") and not loopouts(v) and not arr.contains_op(v, "opaque"):
                x = "ne"
            if x == "unknown" and not loopouts(b) and not loopouts(v):
                ys = set()
                outside_sums(v, ys)
                if ys and all(y is not b and not arr.contains_op(y, "opaque") and {z for z in subterms(y) if z.op == "draw"} !=
                              {z for z in subterms(b) if z.op == "draw"} for y in ys):
                    x = "ne"
            (rep.ok if x == "eq" else rep.bad if x == "ne" else rep.unsure)(
                key + ":evaluated", "the likelihood of the new live point is its target density" if x == "eq" else
                "the likelihood of the new live point %s is %s, expected its target density" % (show(b)[:200], show(v)[:250]), w)
            if any(s.op == "draw" for s in subterms(b)):
                rep.ok(key + ":drawn", "the new live point is drawn", w)
            elif not is_opaque(b):
                rep.bad(key + ":drawn", "the new live point %s is not drawn" % show(b)[:200], w)
            else:
                rep.unsure(key + ":drawn", "the new live point: %s" % show(b)[:200], w)
    # at the start of a request
    if not li.outer:
        i0, v0 = li.init[liv], li.init[vloc]
    else:
        o = [x for x in it.loopinfos if str(x.lid) == str(li.outer[0])]
        if not o or liv not in o[0].init or vloc not in o[0].init:
            return
        i0, v0 = o[0].init[liv], o[0].init[vloc]
    try:
        g, e = elem.el(v0, (RW,)), elem.el(exp(npsem.logp(it, target, index(i0, RW))), ())
        x = "eq" if g is e else row_compare(g, e)
    except Unknown:
        x = "unknown"
    if x == "unknown" and target is PI2:
        old = from_target(r, v0)
        if old is not None and not any(s.op == "sym" and META.get(s, {}).get("kind") == "dist" for c in old[1] for s in subterms(c)):
            rep.bad(key + ":initial", "the likelihoods of the live points may be densities under the target of an earlier request: %s" % show(old[0])[:200], w)
            return
    (rep.ok if x == "eq" else rep.bad if x == "ne" else rep.unsure)(
        key + ":initial", "likelihoods at the start are the target densities at the live points" if x == "eq" else
        "the likelihood of a live point at the start is %s, expected %s" % (show(g)[:200] if x != "unknown" else "?", show(e)[:200] if x != "unknown" else "?"), w)


def together(a, b):
    """the branches of two values chosen by the same conditions"""
    if a.op == "ite" and arr.rank(a.args[0]) in (0, None):
        c = a.args[0]
        for x, y, z in ((c, a.args[1], under(b, c)), (bnot(c), a.args[2], under(b, bnot(c)))):
            yield from together(y, z)
    elif b.op == "ite" and arr.rank(b.args[0]) in (0, None):
        c = b.args[0]
        for x, y, z in ((c, b.args[1], under(a, c)), (bnot(c), b.args[2], under(a, bnot(c)))):
            yield from together(z, y)
    else:
        yield (), a, b


def likely(c, V, ms):
    """a condition on two densities under which the second can be as large as the first"""
    on = [x for x in (c.args if c.op == "and" else (c,)) if any(contains(x, m) for m in ms)]
    for v, y in ((1, 1), (2, 3), (Fraction(1, 3), Fraction(1, 2)), (1, 100)):
        xs = [subst(x, {V: num(v), **{m: num(y) for m in ms}}) for x in on]
        if xs and all(x is TRUE for x in xs):
            return True
    return False


def retry(rep, r, key, li):
    """drawing again while the new point is less likely"""
    it = r.it
    low = set()
    for loc, s in li.step.items():
        if loc == own(r, "L") and isinstance(s, T):
            for _c, x in branches(s):
                try:
                    low.add(index(parts(x)[-1], ZERO))
                except Exception:
                    pass
    for lj in it.loopinfos:
        if not lj.outer or str(lj.outer[-1]) != str(li.lid) or lj.kind != "while":
            continue
        fresh = [(loc, m) for loc, m in lj.mus.items() if m is not None and isinstance(lj.step[loc], T) and arr.contains_op(lj.step[loc], "logp")
                 and arr.rank(lj.step[loc]) in (0, 1)]
        if not fresh and not lj.breaks and not arr.contains_op(lj.cond, "opaque"):
            rep.bad(key + ":retry", "whether another point is drawn does not depend on the likelihood of the new one: %s" % show(lj.cond)[:200], lj.where)
            continue
        if len(fresh) != 1 or len(low) != 1:
            rep.unsure(key + ":retry", "repeated drawing not recognised", lj.where)
            continue
        m, V = fresh[0][1], list(low)[0]
        ms = {m, index(m, ZERO) if arr.rank(m) else m}
        a, b = (subst(lj.cond, {gt0(sub(V, x)): t for x in ms}) for t in (TRUE, FALSE))
        if b is FALSE and a is not FALSE:
            rep.ok(key + ":retry", "another point is drawn only while the new one is less likely", lj.where)
        elif any(contains(lj.cond, gt0(sub(x, V))) for x in ms) or a is FALSE or likely(lj.cond, V, ms):
            rep.bad(key + ":retry", "another point is drawn while %s" % show(lj.cond)[:200], lj.where)
        elif not contains(lj.cond, m) and not any(contains(x, m) for x in lj.breaks):
            rep.bad(key + ":retry", "whether another point is drawn does not depend on the likelihood of the new one: %s" % show(lj.cond)[:200], lj.where)
        else:
            rep.unsure(key + ":retry", "another point is drawn while %s" % show(lj.cond)[:200], lj.where)


# ------------------------------------------------------------------ C12
def C12(rep):
    rep.rule = ("every loop that decides by a comparison of target densities with a uniform random number: the condition, as an expression "
                "over log densities, proposal and the number drawn, is the acceptance test of the algorithm, the number is drawn afresh for "
                "every decision, an accepted move goes to the proposed point and a rejected one stays (or, for rejection sampling, is left "
                "out)")
    every(rep, c12_chain, ("mh", "lais"))
    every(rep, c12_targets, ("mh", "lais", "rej"))
    every(rep, c12_reject, ("rej",))


def uniforms(t):
    return {s for s in subterms(t) if s.op in ("rand01", "rand")}


def keyvars(t):
    """what distinguishes one random number from the next: the iterations in its key"""
    k = t.args[0] if t.op in ("rand01", "rand") else t.args[1]
    return {x for a in k.args[1:] if isinstance(a, T) for x in subterms(a)} | {a for a in k.args[1:] if isinstance(a, T)}


def run_once(t, cs):
    """given that the loops inside were entered"""
    m = {}
    for s in subterms(t):
        if s.op == "gt0" and s.args[0].op == "trip":
            m[s] = TRUE
    return subst(t, m) if m else t


def judge_test(rep, key, what, A, E, w):
    A = A.args[0] if A.op == "truthy" else A
    if A is gt0(E):
        rep.ok(key, what + " is the acceptance test of the algorithm", w)
        return
    v = "unknown"
    try:
        ix = (ZERO,) * (arr.rank(A) or 0)
        a, e = elem.el(A, ix), elem.el(gt0(E), ())
        if a is e:
            v = "eq"
        elif not arr.contains_op(a, "opaque"):
            if a.op == "gt0" and e.op == "gt0":
                v = row_compare(a.args[0], e.args[0])
                if v == "ne":
                    v = "unknown"
            if v == "unknown":
                v = row_compare(ite(a, ONE, ZERO), ite(e, ONE, ZERO))
                v = "unknown" if v == "eq" else v
    except Unknown:
        pass
    (rep.ok if v == "eq" else rep.bad if v == "ne" else rep.unsure)(
        key, "%s is %s%s" % (what, show(A)[:500], "" if v == "eq" else ", expected %s > 0" % show(E)[:400]), w)


def top_cond(t):
    """the condition a value is chosen by, with the two values"""
    if t.op == "ite":
        return t.args
    return None


def remembered(it, li):
    """loop variables that hold the target's density at another loop variable throughout: {c: (m, density at m)}"""
    out = {}
    def at(x, e):
        if x.op == "ite":
            return ite(x.args[0], at(x.args[1], e), at(x.args[2], e))
        return e(x)
    es = (lambda x: npsem.logp(it, PI_, x), lambda x: exp(npsem.logp(it, PI_, x)))
    def flat(t):
        if t.op == "ite":
            return ite(t.args[0], flat(t.args[1]), flat(t.args[2]))
        return elem.el(t, (ZERO,) * (arr.rank(t) or 0))
    def same(a, b):
        try:
            return flat(a) is flat(b) or equal(flat(a), flat(b))
        except Unknown:
            return False
    for lc, c in li.mus.items():
        ic, sc = li.init.get(lc), li.step.get(lc)
        if c is None or not isinstance(ic, T) or not isinstance(sc, T) or not arr.contains_op(ic, "logp"):
            continue
        for lm, m in li.mus.items():
            im, sm = li.init.get(lm), li.step.get(lm)
            if m is None or m is c or not isinstance(im, T) or not isinstance(sm, T) or sm.op != "ite":
                continue
            for e in es:
                try:
                    em = e(m)
                    if arr.rank(c) == 1 and arr.rank(em) == 0:
                        em = arr.reshape(em, (ONE,))
                    if same(ic, at(im, e)) and same(subst(run_once(sc, ()), {c: em}), at(subst(run_once(sm, ()), {c: em}), e)):
                        out[c] = (m, em)
                        break
                except Unknown:
                    pass
    return out


def mistaken(it, li, m, c, A, E):
    """a loop variable the test takes for the density at the chain's position, but which is another one after some move"""
    lc, lm = ([l for l, x in li.mus.items() if x is y][0] for y in (c, m))
    ic, sc, im, sm = li.init.get(lc), li.step.get(lc), li.init.get(lm), li.step.get(lm)
    if not all(isinstance(x, T) for x in (sc, sm)):
        return "unknown", ""
    for e in (lambda x: npsem.logp(it, PI_, x), lambda x: exp(npsem.logp(it, PI_, x))):
        em = e(m)
        em = arr.reshape(em, (ONE,)) if arr.rank(c) == 1 and arr.rank(em) == 0 else em
        q = Quiet()
        judge_test(q, "k", "", subst(A, {c: em}), E, "")
        if q.got["k"][0] != "ok":
            continue
        def at(x):
            return ite(x.args[0], at(x.args[1]), at(x.args[2])) if x.op == "ite" else e(x)
        try:
            a, b = (elem.el(x, (ZERO,) * (arr.rank(x) or 0)) for x in (run_once(subst(sc, {c: em}), ()), at(run_once(subst(sm, {c: em}), ()))))
        except Unknown:
            return "unknown", ""
        if row_compare(a, b) == "ne":
            return "ne", " as the density at %s, but after a move it is %s, at the new position it is %s" % (show(m)[:40], show(a)[:300], show(b)[:300])
        return "unknown", ""
    return "unknown", ""


def c12_chain(rep, r):
    it = r.it
    done = 0
    fresh = [li for li in it.loopinfos[r.li0:]]
    for li in fresh:
        kept_ = remembered(it, li)
        for loc, m in li.mus.items():
            st = li.step.get(loc)
            if m is None or not isinstance(st, T) or st.op != "ite" or m in kept_:
                continue
            st = run_once(st, ())
            if kept_ and st.op == "ite":
                st = subst(st, {c: e for c, (x, e) in kept_.items() if x is m})
            if st.op != "ite" or not arr.contains_op(st.args[0], "logp") or not arr.contains_op(st.args[0], "draw") and not uniforms(st.args[0]):
                continue
            if any(isinstance(x, T) and x.op not in ("ite",) and contains(x, st) for x in ()):
                continue
            A, X, Y = st.args
            done += 1
            key = "%s:%s" % (r.key, "first" if it.loopinfos.index(li) < r.li1 else "later")
            w = li.where
            if A.op == "not":
                A, X, Y = bnot(A), Y, X
            if Y is m:
                rep.ok(key + ":stay", "a rejected move leaves the chain where it was", w)
            elif X is m:
                # stays when the condition holds
                A, X, Y = bnot(A), Y, X
                rep.ok(key + ":stay", "a rejected move leaves the chain where it was", w)
            else:
                bad = not is_opaque(Y) and arr.contains_op(Y, "draw")
                (rep.bad if bad else rep.unsure)(key + ":stay", "a rejected move leaves the chain at %s" % show(Y)[:200], w)
            dr = [s for s in subterms(X) if s.op == "draw"]
            if len(set(dr)) != 1 or is_opaque(X):
                rep.unsure(key + ":move", "the proposed point is not recognised: %s" % show(X)[:200], w)
                continue
            D = dr[0].args[0]
            E = sub(npsem.logp(it, PI_, X), npsem.logp(it, PI_, m))
            if r.c.kind == "mh":
                E = add(E, sub(npsem.logp(it, D, sub(m, X)), npsem.logp(it, D, sub(X, m))))
            us = uniforms(A)
            if len(us) != 1:
                (rep.bad if not us and not is_opaque(A) else rep.unsure)(
                    key + ":uniform", "acceptance is decided with %d uniform random numbers: %s" % (len(us), show(A)[:200]), w)
                continue
            u = list(us)[0]
            E = sub(E, log(u))
            mems = [c for c in li.mus.values() if c is not None and c is not m and c not in kept_ and contains(A, c)]
            if not mems:
                judge_test(rep, key + ":test", "the condition of a move", A, E, w)
            else:
                v, why = mistaken(it, li, m, mems[0], A, E) if len(mems) == 1 else ("unknown", "")
                (rep.bad if v == "ne" else rep.unsure)(key + ":test", "the condition of a move depends on %s, kept from move to move%s" % (
                    show(mems[0])[:60], why), w)
            lack = {x for x in keyvars(dr[0]) if x.op in ("sym", "trip")} - keyvars(u)
            if lack:
                rep.bad(key + ":uniform", "the uniform random number is not drawn afresh with every proposed point (the same one over %s)" % ", ".join(
                    show(x)[:60] for x in lack), w)
            else:
                rep.ok(key + ":uniform", "a fresh uniform random number decides", w)
            if r.c.kind == "lais":
                chain_ends(rep, r, key, li, loc)
    if not done:
        # decided, but the chain goes where the proposal says in any case?
        for li in fresh:
            for loc, m in li.mus.items():
                st = li.step.get(loc)
                if m is None or loc[0] == "h" or not isinstance(st, T) or not draws(it, li):
                    continue
                if loc == own(r, "current_sample") and r.c.kind == "mh":
                    x = run_once(st, ())
                    if x is not m and x.op != "loopout" and not is_opaque(x) and contains(x, m) and not arr.contains_op(x, "ite"):
                        rep.bad("%s:move" % r.key, "the chain always moves: to %s" % show(x)[:200], li.where)
                        return
        rep.unsure(r.key, "moves of the chain are not recognised", where(r.c.name, "importance_sample"))


def chain_left(rep, key, got, want, w):
    if got is want or same_term(got, want):
        rep.ok(key + ":end", "the mean of the proposal follows the chain", w)
    elif want.op == "ite" and (got is want.args[1] or got is want.args[2] or same_term(got, want.args[1]) or same_term(got, want.args[2])):
        rep.bad(key + ":end", "a step leaves the mean of the proposal at %s whether or not the chain moved there" % show(got)[:300], w)
    else:
        rep.unsure(key + ":end", "a step leaves the mean of the proposal at %s, the chain at %s" % (show(got)[:200], show(want)[:200]), w)


def chain_ends(rep, r, key, li, loc):
    """chains start at the mean of their proposal, which ends where the chain does"""
    it = r.it
    if not li.outer:
        return
    o = [x for x in it.loopinfos if str(x.lid) == str(li.outer[-1])]
    if not o:
        return
    o = o[0]
    lists = [(l, m) for l, m in o.mus.items() if m is not None and l[0] == "lst" and isinstance(o.step.get(l), T) and o.step[l] is not m]
    for l, m in lists:
        start = npsem.dloc(it, index(m, o.idx)) if hasattr(npsem, "dloc") else mk("dloc", index(m, o.idx))
        if li.init[loc] is start:
            rep.ok(key + ":start", "a chain starts at the mean of its proposal", li.where)
        elif li.init[loc].op == "dloc" and not is_opaque(li.init[loc]):
            rep.bad(key + ":start", "a chain starts at %s, expected the mean of its proposal" % show(li.init[loc])[:200], li.where)
        else:
            rep.unsure(key + ":start", "a chain starts at %s" % show(li.init[loc])[:200], li.where)
        st, inner = o.step[l], li.step.get(l)
        end = st.args[2].args[1] if st.op == "store" and st.args[2].op == "dist" else None
        if end is None:
            continue
        name = "%s:%s" % (li.lid, it.loc_name(l))
        pos = "%s:%s" % (li.lid, it.loc_name(loc))
        if end.op == "loopout" and end.args[0] == pos:
            rep.ok(key + ":end", "the proposal's mean ends where the chain does", li.where)
        elif end.op == "dloc" and end.args[0].op == "index" and end.args[0].args[0].op == "loopout" and end.args[0].args[0].args[0] == name \
                and end.args[0].args[1] is o.idx and inner is not None and inner.op == "store" and inner.args[2].op == "dist":
            z = run_once(inner.args[2].args[1], ())
            chain_left(rep, key, z, run_once(li.step[loc], ()), li.where)
        elif end.op == "loopout" and end.args[0].startswith("%s:" % li.lid) and [
                x for x in li.step if "%s:%s" % (li.lid, it.loc_name(x)) == end.args[0] and isinstance(li.step[x], T)]:
            z = [li.step[x] for x in li.step if "%s:%s" % (li.lid, it.loc_name(x)) == end.args[0]][0]
            chain_left(rep, key, run_once(z, ()), run_once(li.step[loc], ()), li.where)
        else:
            bad = not arr.contains_op(end, "opaque") and arr.contains_op(end, "draw")
            (rep.bad if bad else rep.unsure)(key + ":end", "the mean of the proposal is left at %s when the chain ends" % show(end)[:300], li.where)


def from_target(r, t, seen=None):
    """a density under the first target the value t is computed from (conditions and places of evaluation aside), with the
    conditions it is chosen under, or None"""
    seen = set() if seen is None else seen
    if not isinstance(t, T) or t in seen:
        return None
    seen.add(t)
    if t.op == "logp":
        return (t, ()) if t.args[0] is PI_ else None
    if t.op in ("draw", "key", "dist", "clock", "trip", "rand01", "len", "num", "const"):
        return None
    if t.op == "ite":
        for b in t.args[1:]:
            x = from_target(r, b, seen)
            if x is not None:
                return x[0], x[1] + (t.args[0],)
        return None
    for li in r.it.loopinfos:
        for loc, y in li.mus.items():
            if y is t or t.op == "loopout" and t.args[0] == "%s:%s" % (li.lid, r.it.loc_name(loc)):
                for z in (li.init.get(loc), li.step.get(loc)):
                    x = from_target(r, z, seen)
                    if x is not None:
                        return x
    def inside(a):
        if isinstance(a, tuple):
            for z in a:
                yield from inside(z)
        else:
            yield a
    for z in inside(t.args):
        x = from_target(r, z, seen)
        if x is not None:
            return x
    return None


def c12_targets(rep, r):
    """asked for samples of another target, the tests compare densities under that one"""
    q = Run(r.c, r.d, other=PI2)
    tests = {}
    for li in q.it.loopinfos[q.li1:]:
        for v in li.step.values():
            if isinstance(v, T):
                for s in subterms(v):
                    if s.op == "gt0" and any(x.op == "logp" and x.args[0] is PI2 for x in subterms(s)) and uniforms(s):
                        tests.setdefault(s, li.where)
    if not tests:
        rep.unsure(r.key + ":targets", "no acceptance test recognised in a request for another target", where(r.c.name, "importance_sample"))
        return
    for A, w in tests.items():
        x = from_target(q, A.args[0])
        if x is None:
            rep.ok(r.key + ":targets", "a test of a request uses densities under the target of that request only", w)
            continue
        told = any(s.op == "sym" and META.get(s, {}).get("kind") == "dist" for c in x[1] for s in subterms(c))
        (rep.unsure if told else rep.bad)(
            r.key + ":targets", "a test of a request for another target uses a density under the target of an earlier request: %s" % show(x[0])[:200], w)
        return


def c12_reject(rep, r):
    it, done = r.it, False
    for li in it.loopinfos[r.li0:]:
        ms = li.mus.get(own(r, "samples"))
        if ms is None:
            continue
        st = li.step[own(r, "samples")]
        key = "%s:%s" % (r.key, "first" if it.loopinfos.index(li) < r.li1 else "later")
        new = parts(st)[-1]
        if new.op == "index" and new.args[1].op == "where1":
            new = mask(new.args[0], new.args[1].args[0])
        if new.op != "mask":
            rep.unsure(key, "what is kept of the proposed points is not recognised: %s" % show(new)[:200], li.where)
            continue
        done = True
        P, c = new.args
        if P.op != "draw":
            rep.unsure(key, "the proposed points are not recognised: %s" % show(P)[:200], li.where)
            continue
        row = index(P, RW)
        if any(s.op == "ite" and any(x.op == "opaque" and str(x.args[0].args[-1] if isinstance(x.args[0], T) else x.args[0]).startswith("stale:") for x in s.args[1:])
               and any(uniforms(x) for x in s.args[1:]) for s in subterms(c)):
            rep.bad(key + ":uniform", "acceptance reuses the uniform random numbers of an earlier iteration", li.where)
            continue
        try:
            A = elem.el(c, (RW,))
        except Unknown as e:
            rep.unsure(key, "condition not resolved: %s" % e, li.where)
            continue
        us = uniforms(c)
        if len(us) != 1:
            (rep.bad if not us and not is_opaque(c) else rep.unsure)(
                key + ":uniform", "acceptance is decided with %d uniform random numbers: %s" % (len(us), show(c)[:200]), li.where)
            continue
        u = list(us)[0]
        if arr.rank(u) == 0:
            rep.bad(key + ":uniform", "one uniform random number decides for all the proposed points", li.where)
            continue
        lack = {x for x in keyvars(P) if x.op in ("sym", "trip")} - keyvars(u)
        if lack:
            rep.bad(key + ":uniform", "the uniform random numbers are not drawn afresh with the proposed points", li.where)
        else:
            rep.ok(key + ":uniform", "a fresh uniform random number decides for each proposed point", li.where)
        E = sub(sub(npsem.logp(it, PI_, row), npsem.logp(it, P.args[0], row)), add(log(n_("scal", pos=True)), log(index(u, RW))))
        try:
            e = elem.el(gt0(E), ())
            a = pointwise(A)
            e = pointwise(e)
            v = "eq" if a is e else row_compare(a.args[0], e.args[0]) if a.op == "gt0" and e.op == "gt0" else "unknown"
            if v != "eq":
                v = row_compare(ite(a, ONE, ZERO), ite(e, ONE, ZERO))
                v = "unknown" if v == "eq" else v
        except Unknown:
            v = "unknown"
        (rep.ok if v == "eq" else rep.bad if v == "ne" else rep.unsure)(
            key + ":test", "a proposed point is kept if %s%s" % (show(A)[:400], "" if v == "eq" else ", expected if %s > 0" % show(E)[:300]), li.where)
    if not done:
        rep.unsure(r.key, "selection of the proposed points is not recognised", where(r.c.name, "importance_sample"))


# ------------------------------------------------------------------ C14
QUERIES = ("get_stats", "num_target_evals", "num_proposal_samples", "num_proposal_evals", "get_acceptance_rate", "get_NESS",
           "get_approx_NESS", "prob", "log_prob", "get_params")


def C14(rep):
    rep.rule = ("every query, interpreted on a sampler after one and after two requests, is compared heap record by heap record: no attribute, "
                "array, list or node reachable from the sampler may differ afterwards; nothing may be drawn from a proposal, and the random "
                "generator not be seeded; the same for computing each metric on the sampler")
    every(rep, c14)


def what_changed(r, before, loc, f):
    if f:
        return "attribute %s" % f
    for k, rec in before.items():
        if isinstance(rec, dict):
            for g, v in rec.items():
                if getattr(v, "id", None) == loc and not isinstance(v, (Obj, SObj)):
                    return "the contents of attribute %s" % g
    if isinstance(loc, tuple) and loc and loc[0] == "F":
        return "attribute %s of the nodes" % loc[-1]
    return "stored data"


def pure(rep, r, key, what, st, go, w):
    it = r.it
    s = st.copy()
    before = dict(s.heap)
    e0 = len(it.events)
    try:
        go(s)
    except Dead:
        return
    seeds = [e for e in it.events[e0:] if e.kind == "seed"]
    if seeds:
        rep.bad(key, "%s seeds the random generator" % what, w)
        return
    diff_ = []
    for (loc, f), definite in changed(before, s, it):
        if isinstance(loc, str) and loc.startswith("G:"):
            continue
        a = before.get(loc)
        if f and isinstance(a, dict) and a.get(f) is NONE:
            continue                     # built when first asked for
        diff_.append(((loc, f), definite))
    hard = [d for d, x in diff_ if x]
    if not hard:
        hard = [d for d, x in diff_ if surely(before, s, it, d)]
    if hard:
        rep.bad(key, "%s changes %s" % (what, "; ".join(sorted({what_changed(r, before, *d) for d in hard})[:4])), w)
    elif diff_:
        rep.unsure(key, "%s may change %s" % (what, "; ".join(sorted({what_changed(r, before, *d) for d, _x in diff_})[:4])), w)
    else:
        rep.ok(key, "%s leaves all %d records as they were" % (what, len(before)), w)


def surely(before, s, it, d):
    """the new value is an expression of the old one that is not it"""
    loc, f = d
    a, b = before.get(loc), s.heap.get(loc)
    if isinstance(a, Cell) and isinstance(b, Cell):
        a, b = a.t, b.t
    elif f and isinstance(a, dict) and f in a and f in b:
        a, b = it_deref(it, s, a[f], before), it_deref(it, s, b[f])
    if not isinstance(a, T) or not isinstance(b, T) or a is b or arr.contains_op(b, "opaque"):
        return False
    if b.op in ("store", "storemask", "storeslice", "mstore") and b.args[0] is a:
        return True
    if b.op == "ext" and b.args[0] == "sort" and b.args[1] is a and a.op not in ("full", "fill"):
        return True
    if b.op == "loopout":
        # an iteration that scales what is stored
        for li in it.loopinfos:
            for l, m in li.mus.items():
                x = li.step.get(l)
                if m is not None and li.init.get(l) is a and isinstance(x, T) and b.args[0] == "%s:%s" % (li.lid, "/".join(map(str, l))) and rescaled(x, m):
                    return True
    d_ = sub(b, a) if arr.rank(a) == arr.rank(b) else None
    if d_ is not None and (is_num(d_) or poscomb(d_) or poscomb(neg(d_))):
        return True
    if b.op == "poly" and len(poly_of(b)) == 1 and not loopouts(b) - loopouts(a):
        (m, _c), = poly_of(b).items()
        if any(x is a and e == 1 for x, e in m) and len(m) > 1:
            return True                  # the old value times something
    return False


def rescaled(x, m):
    """an array with some elements multiplied by something"""
    if x.op == "ite":
        a, b = x.args[1], x.args[2]
        return a is not b and all(y is m or rescaled(y, m) for y in (a, b))
    if x.op == "poly" and len(poly_of(x)) == 1:
        (mo, _c), = poly_of(x).items()
        return len(mo) > 1 and any(a is m and e == 1 for a, e in mo)
    if x.op not in ("store", "storemask", "mstore") or x.args[0] is not m:
        return False
    v = x.args[-1]
    old = {s for s in subterms(v) if s.op in ("index", "mask") and s.args[0] is m}
    return v.op == "poly" and len(poly_of(v)) == 1 and any(a in old and e == 1 for a, e in list(poly_of(v))[0]) and len(list(poly_of(v))[0]) > 1


def c14(rep, r):
    it = r.it
    n = cnt("npt")
    x = mk("fresh", const("num"), const("Q"), n, num(r.d))
    cls = prog().cls(r.c.name)
    for lab, st in (("first", r.st1), ("later", r.st2)):
        for q in QUERIES:
            if cls.find(q) is None:
                continue
            w = where(r.c.name, q)
            if q.startswith("num_"):
                go = lambda s, q=q: it.getattr(s, r.o, q)
            elif q in ("prob", "log_prob"):
                go = lambda s, q=q: it.method(s, r.o, q, [it.box(s, x)])
            else:
                go = lambda s, q=q: it.method(s, r.o, q, [])
            pure(rep, r, "%s:%s:%s" % (r.key, lab, q), q + " after the %s request" % lab, st, go, w)
    # metrics
    if r.c.kind in ("tp",) and r.c.tag != ":simple-none-haar":
        return
    base = prog().cls("CMetric")
    if base is None:
        raise Anchor("class CMetric not found")
    for c in sorted(subclasses(base), key=lambda c: c.name):
        if c.find("compute") is None or subclasses(c):
            continue

        def go(s, c=c):
            m = it.instantiate(s, c, [], {})
            kw = {"p": DVal(PI_), "q": r.o, "nsamples": num(3)}
            for f in ("pre", "post", "compute"):
                if c.find(f):
                    it.method(s, m, f, [], kw)
        pure(rep, r, "%s:metric:%s" % (r.key, c.name), "computing " + c.name, r.st2, go, where(c.name, "compute"))


def subclasses(base):
    return [c for c in prog().classes.values() if c is not base and base in c.mro()]


# ------------------------------------------------------------------ C15
def C15(rep):
    rep.rule = ("one adaptation, as the terms the loop around it leaves: the component weights of the mixture drawn from, and the mean and "
                "covariance of every component, equal the update equations in the drawn points, their normalised weights and the posteriors of "
                "the components, for symbolic points and parameters; every attribute holding the weights holds those of the mixture")
    every(rep, c15, ("mpmc",))


def unnorm(t):
    """mixture weights are stored over their sum"""
    m = {s: div(s.args[0], mk("sum", s.args[0], NONE)) for s in subterms(t) if s.op == "mixnorm"}
    return unnorm(subst(t, m)) if m else t


def c15(rep, r):
    it, done = r.it, False
    for li in it.loopinfos[r.li0:]:
        S, Wt = li.step.get(own(r, "samples")), li.step.get(own(r, "weights"))
        if S is None or Wt is None or not li.mus.get(own(r, "samples")):
            continue
        X, W = parts(S)[-1], parts(Wt)[-1]
        if X.op != "draw" or X.args[0].op != "dist" or X.args[0].args[0] != const("CMixtureModel") and str(X.args[0].args[0]).find("CMixtureModel") < 0:
            continue
        done = True
        key = "%s:%s" % (r.key, "first" if it.loopinfos.index(li) < r.li1 else "later")
        w = where(r.c.name, "importance_sample")
        P, wm = X.args[0].args[1], X.args[0].args[2]
        locP = [l for l, m in li.mus.items() if m is P]
        locW = [l for l, m in li.mus.items() if m is wm]
        if not locP or not locW:
            fixed = [n for n, x, l in (("components", P, locP), ("weights", wm, locW)) if not l and not is_opaque(x)]
            (rep.bad if fixed else rep.unsure)(key + ":fixed", "the %s of the mixture drawn from never change" % " and ".join(fixed) if fixed else
                                               "parameters of the mixture drawn from not recognised", w)
            continue
        locP, locW = locP[0], locW[0]
        # what holds the weights too
        same = [l for l, m in li.mus.items() if m is not None and l != locW and isinstance(li.init.get(l), T) and arr.rank(m) == 1 and
                (li.init[l] is li.init[locW] or unnorm(li.init[locW]) is li.init[l] or
                 li.init[locW].op == "mixnorm" and li.init[locW].args[0] is li.init[l] or
                 li.init[l].op == "loopout" and li.init[locW].op == "loopout" and l[0] == "of" and l[-1] == "wproposals")
                and li.step.get(l) is not m]
        sm = {li.mus[l]: wm for l in same}
        step = lambda t: subst(unnorm(t), sm)
        n, k = cnt("N"), X.args[2] if len(X.args) > 2 else None
        K, N = length(X), length(P)
        i, j = (sym("%s%d" % (a, it.fresh()), kind="num", int=True, nonneg=True, rank=0) for a in "ij")
        ci = sym("comp", kind="num", int=True, nonneg=True, rank=0)
        Ws = step(W)
        lp = lambda c, row: npsem.logp(it, index(P, c), row)

        def post(c, row, jj=j):
            return div(mul(index(wm, c), exp(lp(c, row))), arr.lsum(N, jj, mul(index(wm, jj), exp(lp(jj, row)))))
        wr = mul(index(Ws, i), post(ci, index(X, i)))
        alpha_ = arr.lsum(K, i, wr)
        total = arr.lsum(K, i, index(Ws, i))     # posteriors sum to one
        # weights
        try:
            got, want = elem.el(step(li.step[locW]), (ci,)), elem.el(alpha_, ())
            tot = arr.lsum(N, ci, alpha_)
            v = row_compare(got, elem.el(div(alpha_, tot), ()))
        except Unknown as e:
            v, got, want = "unknown", e, None
        (rep.ok if v == "eq" else rep.bad if v == "ne" else rep.unsure)(
            key + ":alpha", "the next weight of a component is %s%s" % (show(got)[:300] if isinstance(got, T) else got, "" if v == "eq" else
                            ", expected the weighted sum of its posterior over the total"), w)
        for l in same:
            try:
                v = row_compare(elem.el(step(li.step[l]), (ci,)), elem.el(step(li.step[locW]), (ci,)))
            except Unknown:
                v = "unknown"
            (rep.ok if v == "eq" else rep.bad if v == "ne" else rep.unsure)(
                key + ":held:" + str(l[-1] if l[0] == "of" else "weights"), "the weights kept beside the mixture are %s" % (
                    "those of the mixture" if v == "eq" else "not those of the mixture: %s" % show(li.step[l])[:300]), w)
        # moments
        D = index(li.step[locP], ci)
        if D.op != "dist" or len(D.args) < 3:
            inner = li.step[locP]
            if inner.op == "fill" and inner.args[0] is P and inner.args[1][0] not in inner.args[2] and not any(
                    isinstance(x, T) and (contains(x, inner.args[1][0]) or is_opaque(x)) for x in inner.args[2]):
                rep.bad(key + ":moments", "every adapted component is stored at %s" % ", ".join(show(x) for x in inner.args[2]), w)
                continue
            (rep.bad if inner.op == "store" and not is_opaque(inner) else rep.unsure)(
                key + ":moments", "the next components are %s" % show(inner)[:200], w)
            continue
        mu_, cov = step(D.args[1]), step(D.args[2])
        d = sym("dim", kind="num", int=True, nonneg=True, rank=0)
        mean = lambda c: div(arr.lsum(K, i, mul(wr, index(index(X, i), c))), alpha_)
        ok = True
        for c in range(r.d):
            try:
                got = elem.el(mu_, (num(c),))
                v = row_compare(got, elem.el(mean(num(c)), ()))
            except Unknown as e:
                got, v = e, "unknown"
            (rep.ok if v == "eq" else rep.bad if v == "ne" else rep.unsure)(
                "%s:mean:%d" % (key, c), "coordinate %d of the next mean of a component is %s%s" % (c, show(got)[:300] if isinstance(got, T) else got,
                                "" if v == "eq" else ", expected the posterior weighted mean of the samples"), w)
        if cov.op == "ite":
            a, b = cov.args[1:]
            cov = b if not arr.contains_op(a, "draw") else a if not arr.contains_op(b, "draw") else cov
        i2 = sym("i%d" % it.fresh(), kind="num", int=True, nonneg=True, rank=0)
        dev = lambda c, x: sub(index(index(X, x), num(c)), mean(num(c)))
        for a in range(r.d):
            for b in range(a, r.d):
                k2 = "%s:cov:%d%d" % (key, a, b)
                try:
                    got = elem.el(cov, (num(a), num(b)))
                    wr2 = subst(wr, {i: i2})
                    v = row_compare(got, elem.el(div(arr.lsum(K, i2, mul(wr2, mul(dev(a, i2), dev(b, i2)))), alpha_), ()))
                except Unknown as e:
                    got, v = e, "unknown"
                if v == "ne":
                    # the scatter of all points, unweighted
                    v2 = row_compare(got, elem.el(arr.lsum(K, i2, mul(dev(a, i2), dev(b, i2))), ()))
                    if v2 == "eq":
                        if a or b or not key.endswith("first"):
                            continue
                        rep.bad("%s:covariance:unweighted-scatter" % r.c.name, "the next covariance of a component is the sum over all points of "
                                "(x - mean)(x - mean)^T, not weighted by the points' weights and posteriors", where(r.c.name, "adapt"))
                        continue
                    v = v2 if v2 == "unknown" else v
                (rep.ok if v == "eq" else rep.bad if v == "ne" else rep.unsure)(
                    k2, "entry %d,%d of the next covariance of a component is %s%s" % (a, b, show(got)[:300] if isinstance(got, T) else got,
                        "" if v == "eq" else ", expected the posterior weighted scatter around the mean"), w)
    if not done:
        rep.unsure(r.key, "the adaptation loop is not recognised", where(r.c.name, "importance_sample"))


# ------------------------------------------------------------------ C05
def C05(rep):
    rep.rule = ("every loop that draws or evaluates and whose length the request decides: the condition to go on (with the ways to leave it) is "
                "false once budget - time passed is not positive, where the time passed, as an expression over clock readings one iteration "
                "later, is read again in the iteration and counted from the start of the call; in the benchmark, the loop that samples is "
                "left depending on the clock and the budget of a sampling call shrinks with it")
    every(rep, c05)
    from .bench import c05_bench
    rep.guard("CBenchmark.evaluate_method", c05_bench, rep)


def works(it, li):
    return any(e.kind in ("draw", "eval") and li.lid in e.loops for e in it.events)


def c05(rep, r):
    it, done = r.it, False
    n1 = r.li1
    for q, (a, b, tout, nreq) in (("first", (r.li0, n1, r.tout, r.nreq)), ("later", (n1, len(it.loopinfos), r.tout2, r.nreq2))):
        n = 0
        for li in it.loopinfos[a:b]:
            if not works(it, li):
                continue
            if li.kind != "while":
                again = [lj for lj in it.loopinfos[a:b] if li.lid in lj.outer and lj.kind != "while" and any(contains(x, tout) for x in lj.breaks)]
                if li.outer and not again:
                    continue
                if not again and not li.breaks and not (contains(li.trip, nreq) if isinstance(li.trip, T) else False):
                    continue
            n += 1
            name = li.where.split(" ")[-1]
            key = "%s:%s:%s%s" % (r.key, q, name, "" if not li.outer else ":retry")
            budget_loop(rep, r, key, li, tout)
        if n:
            done = True
    if not done:
        rep.unsure(r.key, "no loop whose length the request decides", where(r.c.name, "importance_sample"))


def clocks(t):
    return {s for s in subterms(t) if s.op == "clock"}


def unread(E, li, mine, G):
    """a condition under which an iteration leaves the clock reading it found: it can hold when the iteration obtains nothing"""
    for x in subterms(E):
        if x.op != "ite":
            continue
        c, now = x.args[0], [contains_clock(y) for y in x.args[1:]]
        if now[0] == now[1] or not any(y in mine for y in x.args[1:]):
            continue
        none = {y: ZERO for y in subterms(c) if y.op == "nnz" or y.op == "len" and y.args[0] in mine}
        if not none or not any(y.op == "nnz" for y in none):
            continue
        c0 = subst(c, none)
        if c0 is (FALSE if now[0] else TRUE) and subst(G, none) is not FALSE:
            return c if now[0] else bnot(c)
    return None


def budget_loop(rep, r, key, li, tout):
    it = r.it
    w = li.where
    G = band(li.cond if isinstance(li.cond, T) else TRUE, *[bnot(x) for x in li.breaks])
    mine = {m: li.step.get(l) for l, m in li.mus.items() if m is not None}
    mus = {}
    for lj in it.loopinfos:
        for l, m in lj.mus.items():
            if m is not None:
                mus[m] = (lj, l)
    if not contains(G, tout):
        held = [m for m in mus if contains(G, m) and isinstance(mus[m][0].init.get(mus[m][1]), T) and contains(mus[m][0].init[mus[m][1]], tout)]
        (rep.unsure if held or arr.contains_op(G, "opaque") else rep.bad)(
            key + ":guard", "iterations start however much time has passed: the loop goes on while %s" % show(G)[:300], w)
        return
    atoms = [s for s in subterms(G) if s.op in ("gt0", "eq0") and contains(s, tout)]
    out = subst(G, {s: FALSE for s in atoms})
    out = out.args[0] if out.op == "truthy" else out
    if out is not FALSE:
        (rep.bad if not contains(out, tout) and not arr.contains_op(out, "opaque") else rep.unsure)(
            key + ":guard", "when the time is up the loop still goes on while %s" % show(out)[:300], w)
        return
    rep.ok(key + ":guard", "goes on only while the budget is not used up", w)
    # one iteration later
    m = {x: v for x, v in mine.items() if isinstance(v, T)}
    for s in atoms:
        E = run_once(subst(s.args[0], m), ())
        for x in [x for x in subterms(E) if x.op == "gt0" and not contains(x, tout) and arr.contains_op(x, "trip")]:
            E = subst(E, {x: TRUE})
        for x in [x for x in subterms(E) if x.op == "ite"]:
            if all(contains_clock(y) for y in x.args[1:]):
                E = subst(E, {x: x.args[1]})
        E = last_values(it, E)
        dry = unread(E, li, mine, G)
        if dry is not None:
            rep.bad(key + ":time", "in an iteration in which %s does not hold the time passed is not read again: time left is %s" % (
                show(dry)[:200], show(E)[:300]), w)
            continue
        p = poly_of(E)
        lin = {mo[0][0]: c for mo, c in p.items() if len(mo) == 1 and mo[0][1] == 1}
        if lin.get(tout) != 1 or len(lin) + (1 if () in p else 0) != len(p):
            rep.unsure(key + ":time", "time left is %s" % show(E)[:300], w)
            continue
        now = [t for t, c in lin.items() if t.op == "clock" and c < 0]
        start = [t for t, c in lin.items() if t.op == "clock" and c > 0]
        left = [t for t in lin if t.op != "clock" and t is not tout]
        inside = lambda t: any(contains(x, li.idx) or x is li.idx for x in subterms(t)) if isinstance(li.idx, T) else False
        state = [t for t in left if t in mine]                # still a value of this loop
        odd = [t for t in left if t not in mus]
        from ..terms import _nonneg
        more = [t for t in odd if t.op == "sym" and lin[t] > 0 and _nonneg(t)]
        if odd and more == odd and not arr.contains_op(E, "opaque") or p.get((), 0) > 0 and not odd:
            rep.bad(key + ":time", "iterations start after the budget is used up: time left is counted as %s" % show(E)[:300], w)
            continue
        if odd or arr.contains_op(E, "opaque"):
            rep.unsure(key + ":time", "time left is %s" % show(E)[:300], w)
            continue
        if not any(inside(t) for t in now):
            (rep.unsure if state and now else rep.bad)(key + ":time", "the time passed is not read again in an iteration: time left is %s" % show(E)[:300], w)
            continue
        if any(inside(t) for t in start) or state:
            (rep.unsure if [t for t in state if lin[t] < 0] else rep.bad)(
                key + ":start", "the time passed is not counted from the start of the call: time left is %s" % show(E)[:300], w)
            continue
        gap = None
        for lid in li.outer:
            lo = [lj for lj in it.loopinfos if lj.lid == lid][0]
            within = lambda t, lo=lo: isinstance(lo.idx, T) and contains(t, lo.idx)
            if any(within(t) for t in start) and not any(within(t) and not inside(t) for t in now) and not any(
                    (mus[t][0].lid == lid or lid in mus[t][0].outer) and lin[t] < 0 for t in left):
                gap = lo
        if gap is not None:
            rep.bad(key + ":start", "what earlier iterations of the loop at %s took is not counted: time left is %s" % (gap.where, show(E)[:300]), w)
            continue
        rest = uncounted(it, li, now, start)
        if rest:
            rep.bad(key + ":start", "what the loop at %s took is not counted in the time left for the loop at %s after it: %s" % (rest.where, w, show(E)[:300]), w)
            continue
        top = [t for t in start if not any(x.op == "sym" for x in subterms(t))]
        if top:
            rep.ok(key + ":start", "time passed is counted from the start of the call and read again in every iteration", w)
            continue
        # what the loops around measured
        ok = False
        for t in left:
            lj, l = mus[t]
            sp = lj.step.get(l)
            if lin[t] < 0 and isinstance(sp, T):
                sp = last_values(it, sp)
                if any(c < 0 and mo and mo[0][0].op == "clock" and not any(x.op == "sym" for x in subterms(mo[0][0])) for mo, c in poly_of(sp).items()):
                    ok = True
        if ok:
            rep.ok(key + ":start", "the time left is what the iterations before left over, and is read again in every retry", w)
        elif li.outer:
            rep.bad(key + ":start", "retries are given a budget of their own, not what remains of that of the call: time left is %s" % show(E)[:300], w)
        else:
            rep.unsure(key + ":start", "time left is %s" % show(E)[:300], w)


def uncounted(it, li, now, start):
    """a loop drawing or evaluating, earlier in the same iteration of a loop around li, that ran before the clock li starts from was read
    and after every other reading li's time left is taken from"""
    pos = {e.data["res"]: k for k, e in enumerate(it.events) if e.kind == "clock"}
    own = [t for t in start if isinstance(li.idx, T) and t in pos and any(isinstance(x.idx, T) and contains(t, x.idx) for x in it.loopinfos if x.lid in li.outer)]
    if not own or any(t not in pos for t in now + start):
        return None
    last = max(pos[t] for t in own)
    for k, e in enumerate(it.events[:last]):
        if e.kind not in ("draw", "eval") or li.lid in e.loops:
            continue
        lb = [x for x in it.loopinfos if x.lid in e.loops and x.lid not in li.outer and x.lid != li.lid]
        lo = [x for x in li.outer if x in e.loops]
        if not lb or not lo:
            continue
        first = min(pos[t] for t in start)
        read = [pos[t] for t in now if pos[t] <= last and not contains(t, li.idx)]
        if any(k < p for p in read) and first < k or any(j.lid in e.loops and j.lid in li.outer for j in lb):
            continue
        return lb[0]
    return None


def contains_clock(t):
    return isinstance(t, T) and any(s.op == "clock" for s in subterms(t))


def last_values(it, t):
    """values loops leave are those of their last iteration"""
    m = {}
    for s in subterms(t):
        if s.op == "loopout":
            lid, nm = s.args[0].split(":", 1)
            for lj in it.loopinfos:
                if str(lj.lid) == lid:
                    for l, x in lj.mus.items():
                        if "/".join(map(str, l)) == nm and isinstance(lj.step.get(l), T) and contains_clock(lj.step[l]):
                            m[s] = lj.step[l]
    return last_values(it, subst(t, m)) if m else t


def last_round(it, t):
    """(what its last iteration gave it, the loop) for a value a loop leaves"""
    if isinstance(t, T) and t.op == "loopout":
        lid, nm = t.args[0].split(":", 1)
        for lj in it.loopinfos:
            if str(lj.lid) == lid:
                for l in lj.mus:
                    if "/".join(map(str, l)) == nm and isinstance(lj.step.get(l), T):
                        return lj.step[l], lj
    return t, None


# ------------------------------------------------------------------ C09
def C09(rep):
    rep.rule = ("containment in the box [space_min, space_max], by induction over loops: every value the stored points, live points, chain "
                "positions and proposal means are built from is shown inside the box - every initial value, and every value an iteration "
                "leaves supposing those before were - by evaluating its expression over the extremes of what it depends on (drawn "
                "perturbations unbounded, uniform numbers in [0,1], points inside the box) for boxes on either side of the origin")
    every(rep, c09, ("mh", "nested", "multinested", "lais"))


BIG = 1e6
BOXES = ((-1.0, 1.0), (2.0, 3.0), (-5.0, -4.0), (0.5, 4.0))
STRUCT = {"reshape": (0,), "single": (0,), "atleast": (0,), "mask": (0,), "store": (0, -1), "storemask": (0, -1), "mstore": (0, -1), "fill": (0, -1),
          "collect": (2,), "stack": (2,), "full": (1,), "dloc": (0,), "index": (0,), "flatten": (0,), "transpose": (0,), "sort": (0,),
          "dup": (0,), "rows": (0,), "repeat": (0,), "ite": (1, 2)}


class Box:
    def __init__(self, it, d):
        self.it, self.d, self.status, self.need, self.busy, self.luck = it, d, {}, set(), set(), set()
        self.lo, self.hi = n_("lo"), n_("hi")
        self.mus, self.outs, self.why = {}, {}, {}
        for li in it.loopinfos:
            for l, m in li.mus.items():
                if m is not None:
                    self.mus[m] = (li, l)
                self.outs["%s:%s" % (li.lid, "/".join(map(str, l)))] = (li, l)

    def prove(self, t):
        while True:
            self.need = set()
            v = self.inside(t)
            todo, seen, again = list(self.need), set(), False
            while todo and not again:
                k = todo.pop()
                if k in seen or k in self.status:
                    continue
                seen.add(k)
                li, l = self.outs[k]
                for x in (li.init.get(l), li.step.get(l)):
                    self.need = set()
                    w = self.inside(x) if isinstance(x, T) else None
                    if w is not True:
                        self.status[k] = w
                        self.why.setdefault(w, "%s: %s" % (li.where, show(x)[:260] if isinstance(x, T) else x))
                        again = True
                        break
                    todo += list(self.need)
            if not again:
                return v

    def hyp(self, k):
        if k in self.status:
            return self.status[k]
        if k not in self.outs:
            return None
        self.need.add(k)
        return True

    def inside(self, t):
        """True | False | None: every point in t is in the box"""
        if t is EMPTY:
            return True
        if t in self.mus:
            li, l = self.mus[t]
            return self.hyp("%s:%s" % (li.lid, "/".join(map(str, l))))
        if t.op == "loopout":
            return self.hyp(t.args[0])
        if t.op == "concat":
            return self.all([self.inside(x) for x in t.args])
        if t.op == "dist":
            return self.inside(t.args[1]) if "Normal" in str(t.args[0]) else None
        if t.op in STRUCT:
            v = self.all([self.inside(t.args[k]) for k in STRUCT[t.op]])
            if v is True or t in self.busy or t.op != "ite" and not (
                    t.op in ("store", "index") and t.args[1].op == "num" and arr.rank(t.args[0]) == 1):
                return v
            self.busy.add(t)
            try:
                return self.value(t)
            finally:
                self.busy.discard(t)
        return self.value(t)

    @staticmethod
    def all(vs):
        return False if any(v is False for v in vs) else None if any(v is None for v in vs) else True

    def value(self, t):
        ks = [None]
        if isinstance(self.d, int) and self.d > 1 and (arr.rank(t) or 1) < 2 and self.axes(t):
            ks = list(range(self.d))
        return self.all([self.number(t if k is None else self.at(t, k)) for k in ks])

    @staticmethod
    def axes(t):
        """reads or sets single coordinates of a point"""
        return any(s.op in ("index", "store") and len(s.args) > 1 and s.args[1].op == "num" and arr.rank(s.args[0]) == 1 for s in subterms(t))

    def at(self, t, k):
        """what a point has on one axis"""
        if not isinstance(t, T) or t.op in ("num", "sym", "str"):
            return t
        if t.op == "store" and arr.rank(t.args[0]) == 1 and t.args[1].op == "num":
            return self.at(t.args[2] if int(t.args[1].args[0]) % self.d == k else t.args[0], k)
        if t.op == "index" and arr.rank(t.args[0]) == 1 and t.args[1].op == "num":
            j = int(t.args[1].args[0]) % self.d
            v = self.at(t.args[0], j)
            return v if j == k else mk("other", v, num(j))
        if t.op in ("poly", "ite", "minimum", "maximum", "gt0", "eq0", "not", "and", "or"):
            kids = set()
            if t.op == "poly":
                for m, _c in t.args:
                    kids |= {a for a, _e in m}
            else:
                kids = {x for x in t.args if isinstance(x, T)}
            m = {x: y for x in kids for y in (self.at(x, k),) if y is not x}
            if not m:
                return t
            if t.op == "poly":
                return add(*[mul(num(c), *[m.get(a, a) if e == 1 else mk("pow", a, num(e)) for a, e in mo]) for mo, c in t.args])
            f = REBUILD.get(t.op) or (lambda *z: mk(t.op, *z))
            return f(*[m.get(x, x) if isinstance(x, T) else x for x in t.args])
        return t

    def number(self, t):
        at_ = {}

        def bound(x):
            return x.op == "sym" and str(x.args[0]).startswith(("lo:", "hi:"))

        def atoms(x):
            if not isinstance(x, T) or x in at_ or x.op == "num" or x is self.lo or x is self.hi or x is TRUE or x is FALSE:
                return
            if bound(x):
                return
            if x.op in ("rand", "rand01"):
                at_[x] = "unit"
            elif x.op in ("draw", "randn"):
                at_[x] = "free" if free_draw(x, self.it, self.mus) else "unk"
            elif x.op == "poly":
                for m, _c in x.args:
                    for a, e in m:
                        if e != 1:
                            at_[a] = "unk"
                        else:
                            atoms(a)
            elif x.op in ("minimum", "maximum"):
                for a in x.args:
                    atoms(a)
            elif x.op == "ite":
                for a in x.args[1:]:
                    atoms(a)
                cond(x.args[0])
            elif x.op in ("min", "max", "amin", "amax") and bound(x.args[0]):
                # the bound of another axis
                at_[x] = ("<" if x.op.endswith("min") else ">") + str(x.args[0].args[0])[:2]
            elif x.op == "other" and bound(x.args[0]):
                at_[x] = "free"
            elif x.op == "other":
                at_[x] = "unk"
            else:
                if x.op in STRUCT and x.op not in ("full",) or x in self.mus or x.op == "loopout" or x.op == "full" and x.args[1] not in at_:
                    y = x
                    if x.op in ("index", "reshape", "single", "atleast", "flatten") and x.args[0].op in ("draw", "randn"):
                        at_[x] = "free" if free_draw(x.args[0], self.it, self.mus) else "unk"
                        return
                    if x.op in ("index", "reshape", "single", "atleast", "flatten") and x.args[0].op in ("rand", "rand01"):
                        at_[x] = "unit"
                        return
                    v = self.inside(y)
                    at_[x] = "box" if v is True else "free" if v is False else "unk"
                else:
                    at_[x] = "unk"

        def cond(c):
            if c.op in ("not", "and", "or"):
                for a in c.args:
                    cond(a)
            elif self.chance(c) or not any(s in at_ for s in subterms(c)):
                self.luck.add(c)
            elif c.op in ("gt0", "eq0"):
                atoms(c.args[0])
        atoms(t)
        order = sorted(at_, key=lambda x: x.uid if hasattr(x, "uid") else id(x))
        if len(order) > 10:
            return None
        between = any(x.op == "ite" for x in subterms(t)) and len(order) < 5
        esc, self.fuzzy = False, False
        for lo, hi in BOXES:
            vals = [{"unit": (0.0, 1.0), "box": (lo, hi), "free": (-BIG, BIG), "unk": (-BIG, BIG), "<lo": (-BIG, lo), ">lo": (lo, BIG), "<hi": (-BIG, hi), ">hi": (hi, BIG)}[at_[x]] for x in order]
            if between:
                vals = [v + ((lo + hi) / 2,) + ((lo - 0.6, lo - 0.01, hi + 0.01, hi + 0.6) if v == (-BIG, BIG) else ()) if v != (0.0, 1.0) else (0.0, 0.5, 1.0) for v in vals]
            for pt in itertools.product(*vals):
                env = dict(zip(order, pt))
                for v in self.ev(t, env, lo, hi):
                    if not lo - 1e-9 <= v <= hi + 1e-9:
                        esc = True
        if not esc:
            return True
        return None if "unk" in at_.values() or self.fuzzy else False

    @staticmethod
    def chance(c):
        """either outcome can happen anywhere: an acceptance test"""
        return any(s.op == "logp" for s in subterms(c))

    def test(self, c, env, lo, hi):
        if c is TRUE or c is FALSE:
            return {c is TRUE}
        if c.op == "not":
            return {not v for v in self.test(c.args[0], env, lo, hi)}
        if c.op in ("and", "or"):
            f = all if c.op == "and" else any
            out = {c.op == "and"}
            for a in c.args:
                out = {f((x, y)) for x in out for y in self.test(a, env, lo, hi)}
            return out
        if c in self.luck:
            return {True, False}
        if c.op in ("gt0", "eq0") and all(a in env or a.op in ("num", "sym", "poly", "minimum", "maximum", "ite") for a in (c.args[0],)):
            return {v > 0 if c.op == "gt0" else v == 0 for v in self.ev(c.args[0], env, lo, hi)}
        self.fuzzy = True
        return {True, False}

    def ev(self, t, env, lo, hi):
        if t in env:
            return {env[t]}
        if t.op == "num":
            return {float(t.args[0])}
        if t.op == "sym":
            return {lo if str(t.args[0]).startswith("lo") else hi}
        if t.op == "ite":
            out = set()
            for b in self.test(t.args[0], env, lo, hi):
                out |= self.ev(t.args[1 if b else 2], env, lo, hi)
            return out
        if t.op in ("minimum", "maximum"):
            out = None
            f = min if t.op == "minimum" else max
            for a in t.args:
                v = self.ev(a, env, lo, hi)
                out = v if out is None else {f(x, y) for x in out for y in v}
            return out
        out = {0.0}
        for m, c in t.args:
            v = {float(c)}
            for a, e in m:
                v = {x * y for x in v for y in self.ev(a, env, lo, hi)}
            out = {x + y for x in out for y in v}
        return out


def free_draw(x, it=None, mus=()):
    """a drawn perturbation can be anything"""
    if x.op == "randn":
        return True
    D = x.args[0]
    if D.op == "index" and it is not None:
        l = mus[D.args[0]][1] if D.args[0] in mus else None
        F = l[1] if l and l[0] == "h" and isinstance(l[1], tuple) else None
        if F is None and D.args[0].op == "loopout" and "('F', '" in D.args[0].args[0]:
            F = ("F",) + tuple(D.args[0].args[0].split("('F', '")[1].rstrip("')").split("', '"))
        if F:
            return field_normal(it, F[1], F[2])
        return False
    return D is PD or D.op == "sym" or D.op == "dist" and "Normal" in str(D.args[0])


_FN = {}


def field_normal(it, C, f):
    """objects of a class are built with a normal distribution in this attribute"""
    k = (C, f)
    if k not in _FN:
        _FN[k] = False
        try:
            c = prog().cls(C)
            _o, _k, fn = c.find("__init__")
            a = fn.node.args if hasattr(fn, "node") else fn.args
            i2 = Interp(prog(), adt_dists=True, dim=2)
            st = State()
            names = [x.arg for x in a.args[1:]][:len(a.args) - 1 - len(a.defaults)]
            args = [i2.box(st, mk("fresh", const("num"), const(n), *([num(2)] * (1 if k_ == 0 else 2)))) for k_, n in enumerate(names)]
            o = i2.instantiate(st, c, args, {})
            v = i2.deref(st, i2.getattr(st, o, f))
            v = v.d if isinstance(v, DVal) else v
            _FN[k] = isinstance(v, T) and v.op == "dist" and "Normal" in str(v.args[0])
        except Exception as e:
            if os.environ.get("AIS_DEBUG"):
                import traceback
                traceback.print_exc()
    return _FN[k]


def c09(rep, r):
    it = r.it
    w = where(r.c.name, "importance_sample")
    st3 = r.st2.copy()
    it.method(st3, r.o, "reset", [])
    for lab, st in (("built", r.st0), ("first", r.st1), ("later", r.st2), ("reset", st3)):
        for f in {"mh": ("samples", "current_sample"), "lais": ("proposals",)}.get(r.c.kind, ("samples", "live_points")):
            v = r.get(st, f)
            key = "%s:%s:%s" % (r.key, lab, f)
            if not isinstance(v, T) or v.op == "opaque":
                rep.unsure(key, "%s not found" % f, w)
                continue
            b = Box(it, r.d)
            got = b.prove(v)
            name = {"proposals": "the mean of every proposal", "current_sample": "the position of the chain"}.get(f, "every one of " + f)
            name += {"built": " of a new sampler", "first": " after a request", "later": " after a later request", "reset": " after a reset"}[lab]
            if got is True:
                rep.ok(key, name + " lies in the search box", w)
            else:
                (rep.bad if got is False else rep.unsure)(key, "%s %s the search box: %s" % (
                    name, "can leave" if got is False else "may leave", b.why.get(got) or show(v)[:260]), w)


# ------------------------------------------------------------------ C08
def C08(rep):
    rep.rule = ("the approximation a sampler evaluates and draws from after a request, as a term: a mixture whose components sit at rows of all "
                "the samples stored then (index range the whole of them), or are the proposals adapted last with the weights adapted last, or "
                "one component per live leaf with that leaf's centre, radius and weight; density and log density evaluate this mixture")
    every(rep, c08)


def offered(r, st):
    """the mixture evaluated in a state, the state after asking, the points, density and log density"""
    it = r.it
    s = st.copy()
    x = mk("fresh", const("num"), const("Q"), cnt("npt"), num(r.d))
    lp = it.deref(s, it.method(s, r.o, "log_prob", [it.box(s, x)]))
    p = it.deref(s, it.method(s, r.o, "prob", [it.box(s, x)]))
    D = r.get(s, "model")
    D = D.d if isinstance(D, DVal) else D
    return D, s, x, p, lp


def outdated(r, cs, D):
    """what is offered knows nothing of the later request although only numbers of leaves were asked (samples are added to leaves without
    splitting them: HiDaisee, and tree pyramids with an ESS target)"""
    if not cs or not (r.c.kind == "hid" or r.c.hooked) or D.op != "dist":
        return False
    counts = {}
    for st in (r.st1, r.st2):
        T_ = r.it.getattr(st, r.o, "T")
        a = r.it.deref(st, r.it.getattr(st, T_, "leaves_idx" if r.c.kind == "tp" else "leaves"))
        for q in [a] + [x for x in subterms(a) if arr.rank(x) == 1]:
            for op in ("len", "nnz"):
                counts[mk(op, q)] = cnt("leaves%d" % len(counts))
    for c in cs:
        d = c.args[0] if c.op == "not" else c
        if not any(contains(d, k) for k in counts) or c.op != "eq0" and c is cs[0]:
            return False
        d = subst(d, counts)
        if any(s.op in ("loopout", "draw", "opaque", "fresh", "clock", "logp") for s in subterms(d)):
            return False
    ids = [li.lid for li in r.it.loopinfos[r.li1:r.li2]]
    return not any(s.op in ("loopout", "key", "trip") and any(contains_loop(s, i) for i in ids) for s in subterms(D))


def contains_loop(t, lid):
    return any(isinstance(a, str) and (a == lid or a.startswith(lid + ":")) for a in t.args) or any(
        isinstance(a, T) and contains_loop(a, lid) for a in t.args)


def density_of(it, v, D, row, lin):
    e = npsem.logp(it, D, row)
    try:
        g, e = elem.el(v, (RW,)), elem.el(exp(e) if lin else e, ())
        return "eq" if g is e else row_compare(g, e), g
    except Unknown as u:
        return "unknown", u


def leaves_as_arrays(r, st, *ts):
    """the same terms over one array of centres, one of radii and one of weights, whatever made them"""
    T_ = r.it.getattr(st, r.o, "T")
    f = lambda n: r.it.deref(st, r.it.getattr(st, T_, n))
    m, L = cnt("M"), f("leaves_idx")
    s_ = {index(f(n), L): mk("fresh", const("num"), const(n), m, *sh) for n, sh in
          (("centers", (num(r.d),)), ("radii", (ONE,)), ("weights", ()))}
    s_.update({length(k): m for k in list(s_)})
    s_[mk("len", L)] = s_[mk("nnz", L)] = m
    s_[ts[0].args[2]] = mk("fresh", const("num"), const("shares"), m)
    return [subst(t, s_) if isinstance(t, T) else t for t in ts]


def resolve(t, cs):
    """given that requests were not empty"""
    return subst(t, {s: TRUE for s in subterms(t) if s.op == "gt0" and (arr.contains_op(s, "trip") or any(contains(s, c) for c in cs)) and
                     not arr.contains_op(s, "loopout") and not arr.contains_op(s, "clock")})


def c08(rep, r):
    it = r.it
    w = where(r.c.name, "importance_sample")
    asked = None
    try:
        asked = offered(r, r.st1)[1]
        it.method(asked, r.o, "importance_sample", [DVal(PI_), r.nreq2, r.tout2])
    except Dead:
        rep.unsure(r.key + ":asked", "no request possible after a query", w)
        asked = None
    for lab, st in (("first", r.st1), ("later", r.st2), ("asked-between", asked)):
        if st is None:
            continue
        key = "%s:%s" % (r.key, lab)
        try:
            D, s, x, p, lp = offered(r, st)
        except Dead:
            rep.unsure(key, "the density cannot be evaluated", w)
            continue
        if not isinstance(D, T):
            rep.unsure(key, "approximation not found: %s" % (D,), w)
            continue
        if D.op == "ite":
            D = resolve(D, (r.nreq, r.nreq2))
        ended = None
        if r.c.kind in ("mpmc", "dm", "lais"):
            D, ended = last_round(it, D)
        lp0, p0 = (resolve(v, (r.nreq, r.nreq2)) if isinstance(v, T) else v for v in (lp, p))
        rep0 = rep
        alts = list(cases(D))
        if D.op == "ite" and r.c.kind == "multinested":
            alts = alts[:1]             # when nothing was asked for, nothing changes
        for cs, D in alts:
            rep = rep0 if feasible(cs) else Meek(rep0)
            lp, p = (given(v, cs) if isinstance(v, T) else v for v in (lp0, p0))
            if not ended and D.op == "dist" and not is_opaque(D) and not arr.contains_op(D, "draw") and not contains(D, PI_):
                rep.bad(key + ":model", "the approximation knows nothing of the requests: %s" % show(D)[:200], w)
                continue
            if lab == "later" and outdated(r, cs, D):
                rep0.bad(key + ":model", "when there are as many leaves as before (%s) the mixture of the earlier request is kept, whatever the new "
                        "weights are" % show(cs[0])[:150], w)
                continue
            if D.op != "dist" or "CMixtureModel" not in str(D.args[0]):
                rep.unsure(key + ":model", "the approximation is not a mixture: %s" % show(D)[:200], w)
                continue
            {"mpmc": c08_live, "dm": c08_live, "lais": c08_live, "tp": c08_leaves, "hid": c08_leaves}.get(r.c.kind, c08_kde)(rep, r, key, st, D, w, cs)
            if r.c.kind == "tp" and "haar" in r.key:
                continue                # leaf_density
            if r.c.kind == "rej" or ended:
                continue                # a constant times the proposal: the envelope
            row = index(x, RW)
            for nm, v in (("log density", lp), ("density", p)):
                if not isinstance(v, T):
                    rep.unsure(key + ":" + nm, "%s not resolved" % nm, w)
                    continue
                c, g = density_of(it, v, D, row, nm == "density")
                if c == "unknown" and r.c.kind == "tp":
                    D2, v2 = leaves_as_arrays(r, st, D, v)
                    c2, g2 = density_of(it, v2, D2, row, nm == "density")
                    if c2 == "eq" or c2 == "ne" and not is_opaque(v2):
                        c, g = c2, g2
                (rep.ok if c == "eq" else rep.bad if c == "ne" else rep.unsure)(
                    key + ":" + nm.replace(" ", "-"), "the %s offered is %s" % (nm, "that of the mixture" if c == "eq" else
                        "not that of the mixture: %s" % (show(g)[:300] if isinstance(g, T) else g)), w)
        rep = rep0
    if r.c.kind == "tp" and "haar" in r.key:
        leaf_density(rep, r)


def cases(t, cs=(), n=0):
    """(conditions, value), one per way the scalar conditions at the top can turn out"""
    if t.op != "ite" or arr.rank(t.args[0]) not in (0, None) or n > 5:
        yield cs, t
        return
    c = t.args[0]
    while c.op in ("ite", "not") or c.op == "truthy" and isinstance(c.args[0], T) and c.args[0].op in ("ite", "not"):
        c = c.args[0]
    for x in (c, bnot(c)):
        yield from cases(under(t, x), cs + (x,), n + 1)


class Meek:
    """a report in which nothing is a violation"""

    def __init__(self, rep):
        self.rep, self.ok, self.unsure, self.bad = rep, rep.ok, rep.unsure, rep.unsure


def feasible(cs):
    """whether a request can go this way: at most one comparison of the clock, or of unrelated readings of it"""
    seen = set()
    for c in cs:
        if not any(x.op == "gt0" for x in (c, c.args[0] if c.op == "not" else c)):
            return False
        ks = {s for s in subterms(c) if s.op == "clock"}
        if not ks - seen:
            return False
        seen |= ks
    return True


def c08_live(rep, r, key, st, D, w, cs=()):
    """the adapted proposals and their weights"""
    P = r.get(st, "proposals")
    if not isinstance(P, T) or P.op == "opaque":
        rep.unsure(key + ":proposals", "proposals not found", w)
        return
    P, li = given(P, cs), None
    if not contains(D, P):
        Q, li = last_round(r.it, P)
        if li and contains(D, li.mus.get(own(r, "proposals"))) or li and any(x in {li.mus[l] for l in li.mus} for x in subterms(D)):
            P = Q                       # both as the last iteration left them
    M = D.args[1]
    if M is P:
        rep.ok(key + ":proposals", "the mixture is over the proposals adapted last", w)
    else:
        k = sym("comp", kind="num", int=True, nonneg=True, rank=0)
        a, b = index(M, k), index(P, k)
        v = "unknown"
        if a.op == "dist" and b.op == "dist" and a.args[0] is b.args[0] and len(a.args) == len(b.args):
            vs = [row_compare(elem.el(x, (ZERO,) * (arr.rank(x) or 0)), elem.el(y, (ZERO,) * (arr.rank(y) or 0))) if x is not y else "eq"
                  for x, y in zip(a.args[1:], b.args[1:])]
            v = "eq" if all(x == "eq" for x in vs) else "ne" if "ne" in vs else "unknown"
        elif not is_opaque(M) and is_opaque(P):
            v = "ne"                     # the first proposals, for ever
        elif li and M is li.mus.get(own(r, "proposals")) and b.op == "dist" and any(
                x.op == "draw" and contains(x, li.idx) for x in subterms(b)):
            v = "ne"                     # those before the last adaptation
        elif M in {r.get(x, "proposals") for x in (r.st0, r.st1)} and st is not r.st1:
            v = "ne"
        (rep.ok if v == "eq" else rep.bad if v == "ne" else rep.unsure)(
            key + ":proposals", "the mixture is over %s, the proposals are %s" % (show(M)[:260], show(P)[:260]), w)
    W = D.args[2]
    k = sym("comp", kind="num", int=True, nonneg=True, rank=0)
    if r.c.kind == "mpmc":
        want = r.get(st, "wproposals")
        if not isinstance(want, T) or want.op == "opaque":
            rep.unsure(key + ":weights", "component weights not found", w)
            return
    else:
        want = arr.full((length(P),), div(ONE, length(P)))
    got = unnorm(W)
    if got is want:
        v = "eq"
    else:
        try:
            v = compare_states(r, got, unnorm(want), k)
        except Unknown:
            v = "unknown"
    (rep.ok if v == "eq" else rep.bad if v == "ne" else rep.unsure)(
        key + ":weights", "the weights of the mixture are %s%s" % (show(W)[:260], "" if v == "eq" else ", expected %s" % show(want)[:260]), w)


def compare_states(r, got, want, k):
    """values loops leave, equal by induction over the iterations"""
    a, b = {s for s in loopouts(got)}, {s for s in loopouts(want)}
    if not a and not b or a == b:
        return row_compare(elem.el(got, (k,)), elem.el(want, (k,)))
    if got.op == "loopout" and want.op == "loopout" and got.args[0].split(":")[0] == want.args[0].split(":")[0] and got.args[1:] == want.args[1:]:
        lid = got.args[0].split(":")[0]
        for li in r.it.loopinfos:
            if str(li.lid) != lid:
                continue
            ks = {"%s:%s" % (li.lid, "/".join(map(str, l))): l for l in li.mus}
            l1, l2 = ks.get(got.args[0]), ks.get(want.args[0])
            if l1 is None or l2 is None:
                return "unknown"
            m = {li.mus[l1]: li.mus[l2]}
            v = [compare_states(r, unnorm(li.init[l1]), unnorm(li.init[l2]), k), row_compare(elem.el(unnorm(subst(li.step[l1], m)), (k,)), elem.el(unnorm(subst(li.step[l2], m)), (k,)))]
            return "eq" if v == ["eq", "eq"] else "ne" if "ne" in v else "unknown"
    # one of the two never changes
    for x, y in ((got, want), (want, got)):
        if x.op == "loopout" and not is_opaque(y):
            for li in r.it.loopinfos:
                for l, m in li.mus.items():
                    if x.args[0] == "%s:%s" % (li.lid, "/".join(map(str, l))) and isinstance(li.step.get(l), T):
                        v = row_compare(elem.el(unnorm(li.step[l]), (k,)), elem.el(y, (k,)))
                        return "ne" if v == "ne" else "unknown"
    return row_compare(elem.el(got, (k,)), elem.el(want, (k,)))


def c08_kde(rep, r, key, st, D, w, cs=()):
    S = given(resolve(r.get(st, "samples"), (r.nreq, r.nreq2)), cs)
    M = D.args[1]
    n = length(S)
    M = resolve(M, (r.nreq, r.nreq2))
    k = sym("comp", kind="num", int=True, nonneg=True, rank=0)
    picks = {s for s in subterms(M) if s.op == "draw" and s.args[0].op == "dist" and str(s.args[0].args[0]).find("np:") >= 0}
    c = index(M, k)
    picks = {s for s in picks if "randint" in str(s.args[0].args[0])}
    if len(picks) != 1 or c.op != "dist" or len(c.args) < 2:
        if not picks and not arr.contains_op(M, "opaque") and not contains(M, S) and not any(contains(M, x) for x in S.args if isinstance(x, T)):
            rep.bad(key + ":samples", "the approximation is not built from the stored samples: %s" % show(M)[:260], w)
        else:
            rep.unsure(key + ":samples", "which samples the approximation is built from is not recognised: %s" % show(M)[:260], w)
        return
    pk = list(picks)[0]
    lo, hi = pk.args[0].args[1], pk.args[0].args[2]
    lo, hi, n = (resolve(x, (r.nreq, r.nreq2)) for x in (lo, hi, n))
    if sub(lo, ZERO) is ZERO and sub(hi, n) is ZERO:
        rep.ok(key + ":range", "components are picked among all stored samples", w)
    else:
        a, b = abstract([sub(hi, n), ZERO])
        v = compare(a, b) if not arr.contains_op(a, "opaque") else "unknown"
        v = "ne" if v == "ne" or (is_num(lo) and lo is not ZERO) else v
        (rep.ok if v == "eq" else rep.bad if v == "ne" else rep.unsure)(
            key + ":range", "components are picked among samples %s to %s of %s" % (show(lo)[:80], show(hi)[:160], show(n)[:160]), w)
    ix = index(pk, k)
    mean = c.args[1]
    vs = []
    j = sym("pick", kind="num", int=True, nonneg=True, rank=0)
    for q in range(r.d):
        try:
            m_, w_ = subst(mean, {ix: j}), index(S, j)
            g, e = elem.el(m_, (num(q),)), elem.el(w_, (num(q),) if (arr.rank(w_) or 1) == 1 else (ZERO, num(q)))
            vs.append("eq" if g is e else row_compare(g, e))
        except Unknown:
            vs.append("unknown")
    if mean is index(S, ix) or m_is(mean, S, ix):
        vs = ["eq"]
    v = "eq" if all(x == "eq" for x in vs) else "ne" if "ne" in vs and not arr.contains_op(mean, "opaque") else "unknown"
    (rep.ok if v == "eq" else rep.bad if v == "ne" else rep.unsure)(
        key + ":samples", "a component sits at %s%s" % (show(mean)[:300], "" if v == "eq" else ", expected the picked sample of %s" % show(S)[:200]), w)


def m_is(mean, S, ix):
    return mean.op == "index" and mean.args[0] is S and mean.args[1] is ix


def c08_leaves(rep, r, key, st, D, w, cs=()):
    it = r.it
    T_ = it.getattr(st, r.o, "T")
    f = lambda n: it.deref(st, it.getattr(st, T_, n))
    M, W = D.args[1], D.args[2]
    k = sym("comp", kind="num", int=True, nonneg=True, rank=0)
    c = index(M, k)
    if r.c.kind == "tp":
        L = f("leaves_idx")
        pick = lambda a: index(f(a), L)
        want = [index(pick("centers"), k), index(pick("radii"), k)]
        ww, n = pick("weights"), length(pick("weights"))
    else:
        s = st.copy()
        leaves, nodes = f("leaves"), f("nodes")
        ref = lambda a, q=k: index(field_of(r, s, nodes, a), index(nodes, index(leaves, q)))
        want = [ref("center"), ref("radius")]
        n = length(leaves)
        j = sym("leafk", kind="num", int=True, nonneg=True, rank=0)
        ww = None
    vn = "eq" if length(M) is n else "unknown"
    if r.c.kind == "tp" and length(M).op in ("len", "length") and length(M).args[0].op == "index" and length(M).args[0].args[1] is L:
        vn = "eq"
    if vn != "eq" and not is_opaque(length(M)) and not is_opaque(n):
        a, b = abstract([length(M), n])
        vn = compare(a, b)
    (rep.ok if vn == "eq" else rep.bad if vn == "ne" and not arr.contains_op(length(M), "opaque") else rep.unsure)(
        key + ":leaves", "the mixture has %s components%s" % (show(length(M))[:160], ", one per live leaf" if vn == "eq" else ", expected %s" % show(n)[:160]), w)
    if c.op != "dist":
        rep.unsure(key + ":components", "components not recognised: %s" % show(c)[:200], w)
    else:
        v = "eq"
        got = list(c.args[1:3])
        if "Normal" in str(c.args[0]):
            want[1] = arr.diag(want[1]) if hasattr(arr, "diag") else None
        for g, e, nm in zip(got, want, ("centre", "extent")):
            if nm == "extent" and "Normal" in str(c.args[0]):
                continue
            if g is e:
                x = "eq"
            else:
                try:
                    x = "eq"
                    for q in range(r.d):
                        ge, ee = (elem.el(y, ((num(q),) if y.op != "index" or True else ())) if (arr.rank(y) or 0) >= 1 else elem.el(y, ()) for y in (g, e))
                        y = "eq" if ge is ee else row_compare(ge, ee)
                        x = y if y != "eq" else x
                except Unknown:
                    x = "unknown"
            (rep.ok if x == "eq" else rep.bad if x == "ne" and not arr.contains_op(g, "opaque") else rep.unsure)(
                key + ":" + nm, "the %s of a component is %s" % (nm, "that of its leaf" if x == "eq" else "%s, expected %s" % (show(g)[:200], show(e)[:200])), w)
    if ww is not None:
        g = W.args[0] if W.op == "mixnorm" else W
        g, ww = (shares(resolve(t, (r.nreq, r.nreq2))) for t in (g, ww))
        if g is ww:
            x = "eq"
        else:
            try:
                if contains(ww, g) and not g.op == "poly":
                    G = mk("fresh", const("num"), const("shares"), cnt("leafs"))
                    g, ww = G, subst(ww, {g: G})
                x = row_compare(elem.el(g, (k,)), elem.el(ww, (k,)))
                if x == "ne":
                    # both up to a factor common to all the leaves: the mixture normalises
                    x = row_compare(*(div(elem.el(t, (k,)), elem.el(arr.sum_(t), ())) for t in (g, ww)))
            except Unknown:
                x = "unknown"
        (rep.ok if x == "eq" else rep.bad if x == "ne" and not is_opaque(g) and not is_opaque(ww) else rep.unsure)(
            key + ":weight", "the weight of a component is %s" % ("that of its leaf" if x == "eq" else "%s, expected %s" % (show(g)[:200], show(ww)[:200])), w)
    else:
        g = index(W.args[0] if W.op == "mixnorm" else W, k)
        e = ref("weights")
        X = e
        e = div(arr.sum_(e), length(e))
        n_l = cnt("nl")                                       # whatever the weights stored for a leaf are
        m = {X: mk("fresh", const("num"), const("wl"), n_l), mk("len", X): n_l, length(X): n_l}
        x = "unknown"
        for a, b in ((g, e), (subst(g, m), subst(e, m))):
            if x != "unknown" or a is not g and (loopouts(a) or loopouts(b)):
                continue
            try:
                x = "eq" if a is b else row_compare(elem.el(a, ()), elem.el(b, ()))
            except Unknown:
                pass
        (rep.ok if x == "eq" else rep.bad if x == "ne" and not arr.contains_op(g, "opaque") else rep.unsure)(
            key + ":weight", "the weight of a component is %s" % ("the mean weight of the samples of its leaf" if x == "eq" else "%s, expected %s" % (
                show(g)[:200], show(e)[:200])), w)


def shares(t):
    """weights of which some are positive"""
    for _ in range(4):
        m = {s: TRUE for s in subterms(t) if s.op == "gt0" and s.args[0].op in ("lsum", "sum", "add")}
        m.update({s: s.args[0].args[2] for s in subterms(t) if s.op == "index" and s.args[0].op == "store" and s.args[0].args[1] is s.args[1]})
        if not m:
            break
        t = subst(t, m)
    return t


def field_of(r, st, nodes, a):
    for k, v in st.heap.items():
        if isinstance(k, tuple) and len(k) == 3 and k[0] == "F" and k[2] == a and isinstance(v, T):
            return v
    return mk("opaque", const("field " + a))


def leaf_density(rep, r):
    """with cells that do not overlap: the weight of the leaf over its volume"""
    it = r.it
    w = where(r.c.name, "prob")
    s = r.st1.copy()
    T_ = it.getattr(s, r.o, "T")
    m = cnt("M")
    C = mk("fresh", const("num"), const("centers"), m, num(r.d))
    R = mk("fresh", const("num"), const("radii"), m, ONE)
    W = mk("fresh", const("num"), const("leafw"), m)
    L = mk("fresh", const("bool"), const("live"), m)
    for f, v in (("centers", C), ("radii", R), ("weights", W), ("leaves_idx", L)):
        it.setattr(s, T_, f, it.box(s, v))
    x = mk("fresh", const("num"), const("Q"), cnt("npt"), num(r.d))
    for nm in ("prob", "log_prob"):
        s2 = s.copy()
        n0 = len(it.loopinfos)
        v = it.deref(s2, it.method(s2, r.o, nm, [it.box(s2, x)]))
        key = "%s:%s" % (r.key, nm)
        b = [(li, l, li.step[l]) for li in it.loopinfos[n0:] for l in li.mus if isinstance(li.step.get(l), T) and
             li.step[l].op in ("ite", "store") and contains(li.step[l], W) and li.mus[l] is not None]
        if len(b) != 1:
            rep.unsure(key, "evaluation of the density not recognised: %s" % show(v)[:200], w)
            continue
        li, l, t = b[0]
        mu_ = li.mus[l]
        if t.op == "ite":
            cond, a, z = t.args
            if cond.op == "not":
                cond, a, z = cond.args[0], z, a
        else:
            cond, a, z = None, t, None
        if cond is None or cond.op != "any" or a.op != "store" or a.args[0] is not mu_ or a.args[1] is not li.idx:
            rep.unsure(key, "evaluation of the density not recognised: %s" % show(t)[:200], li.where)
            continue
        inl = cond.args[0]
        row = index(x, li.idx)
        e = TRUE
        for q in range(r.d):
            cq, rq = elem.el(C, (RW, num(q))), elem.el(R, (RW, ZERO))
            xq = elem.el(row, (num(q),))
            e = band(e, gt0(sub(xq, sub(cq, rq))), gt0(sub(add(cq, rq), xq)))
        e = band(elem.el(L, (RW,)), e)
        try:
            g = elem.el(inl, (RW,))
            c = "eq" if g is e else row_compare(ite(g, ONE, ZERO), ite(e, ONE, ZERO))
        except Unknown:
            c, g = "unknown", inl
        (rep.ok if c == "eq" else rep.bad if c == "ne" else rep.unsure)(
            key + ":leaf", "the density at a point is that of the leaf%s" % (" it lies in" if c == "eq" else "s with %s" % show(g)[:300]), li.where)
        if cond is not None and isinstance(z, T):
            zv = z.args[2] if z.op == "store" and z.args[0] is mu_ and z.args[1] is li.idx else ZERO if z is mu_ and getattr(
                li.init.get(l), "op", "") in ("zeros", "full") else None
            c = "unknown" if zv is None else "eq" if zv is ZERO else "ne" if is_num(zv) else row_compare(elem.el(zv, (ZERO,) * (arr.rank(zv) or 0)), ZERO)
            (rep.ok if c == "eq" else rep.bad if c == "ne" else rep.unsure)(
                key + ":outside", "the density outside every leaf is %s" % ("zero" if c == "eq" else show(z)[:200]), li.where)
        val = a.args[2]
        want = div(index(W, inl), power(mul(num(2), index(reshape_(R), inl)), num(r.d)))
        got = subst(val, {s_: index(reshape_(R), inl) for s_ in subterms(val) if s_.op in ("index", "mask") and s_.args[0] is R and s_.args[1] is inl})
        j = sym("hit", kind="num", int=True, nonneg=True, rank=0)
        try:
            m_ = {s_: sym("hitW" if contains(s_, W) else "hitR", kind="num", rank=0, pos=True) for s_ in subterms(got) | subterms(want)
                  if s_.op in ("index", "mask") and s_.args[1] is inl and (contains(s_, W) or contains(s_, R))}
            g, e = subst(got, m_), subst(want, m_)
            g = elem.el(g, (ZERO,) * (arr.rank(g) or 0))
            c = row_compare(g, elem.el(e, ()))
        except Unknown:
            c = "unknown"
        (rep.ok if c == "eq" else rep.bad if c == "ne" else rep.unsure)(
            key + ":value", "the density in a leaf is %s" % ("its weight over its volume" if c == "eq" else show(val)[:300]), li.where)


def reshape_(R):
    return R


def exp_of_log(rep):
    """(C20) the density of the approximation every sampler offers is the exponential of its log density"""
    every(rep, c20)


def c20(rep, r):
    it, w = r.it, where(r.c.name, "prob")
    if r.c.kind == "tp" and "haar" in r.key:
        meek, said = Quiet(), {}
        leaf_density(meek, r)
        for k in ("leaf", "value", "outside"):
            a, b = (meek.got.get("%s:%s:%s" % (r.key, nm, k)) for nm in ("prob", "log_prob"))
            key = "%s:approximation:%s" % (r.key, k)
            if a is None or b is None or "unsure" in (a[0], b[0]):
                rep.unsure(key, "density or log density not recognised", w)
            elif a[0] == b[0]:
                rep.ok(key, "density and log density of the tree agree", w)
            else:
                rep.bad(key, "the density and the exponential of the log density differ: %s" % (a if a[0] == "bad" else b)[1], w)
        return
    key = "%s%s:approximation" % (r.c.name, r.c.tag)
    try:
        D, s, x, p, lp = offered(r, r.st1)
    except Dead:
        return
    if not isinstance(p, T) or not isinstance(lp, T):
        rep.unsure(key, "density not resolved", w)
        return
    p, lp = resolve(p, (r.nreq,)), resolve(lp, (r.nreq,))
    if p is exp(lp) or log(p) is lp:
        rep.ok(key, "density and log density agree", w)
        return
    alts = list(cases(D)) if isinstance(D, T) else []
    if alts and not given_up(p) and given_up(lp) and all(
            m.op == "dist" and arr.contains_op(m, "draw") and density_of(it, given(lp, cs), m, index(x, RW), False)[0] == "eq"
            for cs, m in alts):
        rep.bad(key, "the density does not depend on the samples (%s), the log density is that of a mixture around them" % show(p)[:200], w)
        return
    c = agree(p, lp)
    if c == "unknown" and r.c.kind == "tp" and isinstance(D, T) and D.op == "dist":
        _, p, lp = leaves_as_arrays(r, r.st1, D, p, lp)
        c = agree(p, lp)
        c = "unknown" if c == "ne" and is_opaque(p) else c
    (rep.ok if c == "eq" else rep.bad if c == "ne" else rep.unsure)(
        key, "density and the exponential of the log density %s" % ("agree" if c == "eq" else "differ: %s against %s" % (show(p)[:200], show(lp)[:200])), w)


def given_up(t):
    """depends on what earlier requests drew"""
    return arr.contains_op(t, "draw") or arr.contains_op(t, "loopout")


def agree(p, lp):
    try:
        return row_compare(elem.el(p, (RW,)), elem.el(exp(lp), (RW,)))
    except Unknown:
        return "unknown"


class Quiet:
    """keeps what is reported"""
    tier = "quick"

    def __init__(self):
        self.got = {}

    def ok(self, k, m="", w=""):
        self.got[k] = ("ok", m)

    def bad(self, k, m="", w=""):
        self.got[k] = ("bad", m)

    def unsure(self, k, m="", w=""):
        self.got[k] = ("unsure", m)


# ------------------------------------------------------------------ C04
def C04(rep):
    rep.rule = ("after two requests and a reset, every attribute of the sampler (and of the objects it owns) is the value it has in a new one, up "
                "to the names of fresh random draws; attributes that no later operation reads before writing them are left out; a reset seeds nothing")
    every(rep, c04)


class Iso:
    """same structure up to the names of fresh things"""

    def __init__(self, it, sa, sb):
        self.it, self.sa, self.sb = it, sa.copy(), sb.copy()
        self.ren, self.back, self.seen, self.memo, self.why = {}, {}, set(), set(), None

    def name(self, x, y):
        if x == y:
            return True
        px, py = re.split(r"(\d+)", x), re.split(r"(\d+)", y)
        if len(px) != len(py) or px[::2] != py[::2]:
            return False
        for i, j in zip(px[1::2], py[1::2]):
            if self.ren.setdefault(i, j) != j or self.back.setdefault(j, i) != i:
                return False
        return True

    def term(self, a, b):
        if a is b or (a, b) in self.memo:
            return True
        if not isinstance(a, T) or not isinstance(b, T) or a.op != b.op or len(a.args) != len(b.args):
            return False
        if a.op == "poly":
            ma, mb = poly_of(a), poly_of(b)
            if len(ma) != len(mb):
                return False
            left = list(mb.items())
            for m, c in ma.items():
                for k, (n, e) in enumerate(left):
                    if c == e and len(m) == len(n) and self.trial(lambda: all(x[1] == y[1] and self.term(x[0], y[0]) for x, y in zip(
                            sorted(m, key=lambda q: shape_of(q[0])), sorted(n, key=lambda q: shape_of(q[0]))))):
                        del left[k]
                        break
                else:
                    return False
            self.memo.add((a, b))
            return True
        for x, y in zip(a.args, b.args):
            if a.op == "key" and isinstance(x, str) and isinstance(y, str):
                if self.ren.setdefault(("key", x), y) != y or self.back.setdefault(("key", y), x) != x:
                    return False
                continue
            if isinstance(x, T) and isinstance(y, T):
                if not self.term(x, y):
                    return False
            elif x != y and not (isinstance(x, str) and isinstance(y, str) and self.name(x, y)):
                return False
        if a.op == "loopout" and not self.loops(a, b):
            return False
        self.memo.add((a, b))
        return True

    def trial(self, f):
        s = dict(self.ren), dict(self.back), set(self.memo)
        if f():
            return True
        self.ren, self.back, self.memo = s
        return False

    def loops(self, a, b):
        """the same loop, started from the same values"""
        def info(t):
            lid, loc = t.args[0].split(":", 1)
            for li in self.it.loopinfos:
                if str(li.lid) == lid:
                    return li, [l for l in li.mus if "/".join(map(str, l)) == loc]
            return None, None
        la, ka = info(a)
        lb, kb = info(b)
        if la is None or lb is None or la.node is not lb.node or not ka or not kb:
            return False
        if (la.lid, lb.lid) in self.seen:
            return True
        self.seen.add((la.lid, lb.lid))
        ks = list(zip(la.mus, lb.mus))
        if len(la.mus) != len(lb.mus):
            return False
        return all(self.term(la.init[x], lb.init[y]) for x, y in ks if isinstance(la.init.get(x), T) and isinstance(lb.init.get(y), T))

    def value(self, a, b):
        it = self.it
        if isinstance(a, (Obj, Ref, Lst, Dct)) and type(a) is type(b):
            k = (a.id, b.id)
            if k in self.seen:
                return True
            if self.ren.setdefault(("id", a.id), b.id) != b.id or self.back.setdefault(("id", b.id), a.id) != a.id:
                return False
            self.seen.add(k)
            x, y = self.sa.heap.get(a.id), self.sb.heap.get(b.id)
            if isinstance(a, Obj) and isinstance(x, dict):
                return a.cls is b.cls and set(x) == set(y) and all(self.value(x[f], y[f]) for f in x)
            if isinstance(a, Lst) and isinstance(x, LRec):
                return (x.base is y.base or (isinstance(x.base, T) and isinstance(y.base, T) and self.term(x.base, y.base))) and \
                    len(x.items) == len(y.items) and all(self.value(p, q) for p, q in zip(x.items, y.items))
            if isinstance(a, Dct) and isinstance(x, DRec):
                return list(x.items) == list(y.items) and all(self.value(x.items[f], y.items[f]) for f in x.items)
            a, b = it.deref(self.sa, a), it.deref(self.sb, b)
            if isinstance(a, T) and isinstance(b, T):
                return self.term(a, b)
            return a is b
        if isinstance(a, T) and isinstance(b, T):
            return self.term(a, b)
        if isinstance(a, DVal) and isinstance(b, DVal):
            return self.term(a.d, b.d)
        if isinstance(a, SObj) and isinstance(b, SObj):
            k = (a.id, b.id)
            if k in self.seen:
                return True
            self.seen.add(k)
            if a.cls is not b.cls:
                return False
            if isinstance(a.id, T) and not self.term(a.id, b.id):
                return False
            fs = sorted({k[2] for h in (self.sa.heap, self.sb.heap) for k in h if isinstance(k, tuple) and len(k) == 3 and k[0] == "F" and k[1] == a.cls.name})
            return all(self.value(it.sobj_get(self.sa, a, f), it.sobj_get(self.sb, b, f)) for f in fs)
        if isinstance(a, Tup) and isinstance(b, Tup):
            return len(a.items) == len(b.items) and all(self.value(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Uni) and isinstance(b, Uni):
            return self.term(a.c, b.c) and self.value(a.a, b.a) and self.value(a.b, b.b)
        return a is b or (type(a) is type(b) and not isinstance(a, (Obj, Uni)) and repr(a) == repr(b))


def shape_of(t):
    return re.sub(r"\d+", "#", show(t))


def c04(rep, r):
    it = r.it
    w = where(r.c.name, "reset")
    s = r.st2.copy()
    e0 = len(it.events)
    try:
        it.method(s, r.o, "reset", [])
    except Dead:
        rep.unsure(r.key, "reset does not return", w)
        return
    if any(e.kind == "seed" for e in it.events[e0:]):
        rep.bad(r.key + ":seed", "reset seeds the random generator", w)
    else:
        rep.ok(r.key + ":seed", "reset leaves the random generator alone", w)
    new, old, cur = r.rec(r.st0), r.rec(r.st2), s.heap[r.o.id]
    for f in sorted(set(new) | set(cur)):
        key = "%s:%s" % (r.key, f)
        iso = Iso(it, r.st0, s)
        if f in new and f in cur and (iso.value(new[f], cur[f]) or empty_both(it, r.st0, s, new[f], cur[f])):
            rep.ok(key, "%s is that of a new sampler after a reset" % f, w)
            continue
        d0, d1, d2 = (it.deref(st, rec[f]) if f in rec else None for st, rec in ((r.st0, new), (s, cur), (r.st2, old)))
        t0, t1 = (d.d if isinstance(d, DVal) else d for d in (d0, d1))
        if not live(r, s, f):
            rep.ok(key, "%s is written before it is read again" % f, w)
            continue
        what = "after a reset attribute %s is %s, in a new sampler %s" % (f, show(t1)[:220] if isinstance(t1, T) else d1,
                                                                         show(t0)[:160] if isinstance(t0, T) else d0)
        if f not in cur:
            rep.bad(key, "attribute %s is gone after a reset" % f, w)
            continue
        if f not in new:
            # made by a request, and kept
            rep.unsure(key, what, w)
            continue
        kept_ = f in old and unchanged(it, r.st2, s, old[f], cur[f])
        if kept_ or (isinstance(t1, T) and history(r, t1, t0)):
            rep.bad(key, what + (": kept from before the reset" if kept_ else ": it depends on what happened before"), w)
        elif isinstance(t0, T) and isinstance(t1, T) and not any(is_opaque(t) or random_(t) for t in (t0, t1)):
            c = plainly(t0, t1)
            (rep.ok if c == "eq" else rep.bad if c == "ne" else rep.unsure)(key, what, w)
        elif any(isinstance(x, T) and is_num(x) for x in (t0, t1)) and isinstance(t0, T) and isinstance(t1, T) and {t0, t1} & {NONE, TRUE, FALSE}:
            rep.bad(key, what, w)
        elif (t0 is NONE) != (t1 is NONE):
            rep.bad(key, what, w)
        else:
            rep.unsure(key, what, w)


def random_(t):
    return any(s.op in ("draw", "key", "dist") for s in subterms(t))


def plainly(a, b):
    try:
        ra, rb = arr.rank(a) or 0, arr.rank(b) or 0
        if ra != rb:
            return "ne"
        sa, sb = arr.shape(a), arr.shape(b)
        if sa is not None and sb is not None and any(is_num(x) and is_num(y) and x is not y for x, y in zip(sa, sb)):
            return "ne"
        ix = tuple(sym("e%d" % i, kind="num", int=True, nonneg=True, rank=0) for i in range(ra))
        return row_compare(elem.el(a, ix), elem.el(b, ix))
    except Unknown:
        return "unknown"


def empty_both(it, sa, sb, a, b):
    a, b = it.deref(sa, a), it.deref(sb, b)
    try:
        return isinstance(a, T) and isinstance(b, T) and length(a) is ZERO and length(b) is ZERO
    except Unknown:
        return False


def unchanged(it, sa, sb, a, b, depth=0):
    """the very same thing, with the contents it had"""
    if isinstance(a, (Obj, Lst, Dct, Ref)):
        if type(a) is not type(b) or a.id != b.id:
            return False
        x, y = sa.heap.get(a.id), sb.heap.get(b.id)
        if isinstance(x, Cell):
            return x.t is y.t
        if isinstance(x, LRec):
            return x.base is y.base and len(x.items) == len(y.items)
        if isinstance(x, dict) and depth < 4:
            return set(x) == set(y) and all(unchanged(it, sa, sb, x[f], y[f], depth + 1) for f in x)
        return x is y
    if isinstance(a, DVal) and isinstance(b, DVal):
        return a.d is b.d
    if isinstance(a, SObj) and isinstance(b, SObj):
        return a.id is b.id
    return a is b


def history(r, t1, t0):
    """mentions requests or what they left"""
    it = r.it
    lids = {str(li.lid) for li in it.loopinfos[r.li0:r.li2]}

    def marks(t):
        out = set()
        for s in subterms(t):
            if s in (r.nreq, r.nreq2, r.tout, r.tout2, PI_):
                out.add(s)
            elif s.op == "loopout" and s.args[0].split(":", 1)[0] in lids:
                out.add(s)
            elif s.op == "trip" and any(contains(s, li.trip) for li in it.loopinfos[r.li0:r.li2] if isinstance(li.trip, T) and li.trip.op == "trip"):
                out.add(s)
        return out
    return bool(marks(t1)) and not (isinstance(t0, T) and marks(t0))


def live(r, st, f):
    """some operation after the reset reads the attribute before writing it"""
    it = r.it
    x = mk("fresh", const("num"), const("Q"), cnt("npt"), num(r.d))
    ops = [("importance_sample", [DVal(PI_), r.nreq2, r.tout2])] + [(n, a) for n, a in (
        ("sample", [cnt("ndraw")]), ("prob", [x]), ("log_prob", [x]), ("get_NESS", []), ("get_acceptance_rate", []), ("num_proposal_samples", None),
        ("num_proposal_evals", None), ("num_target_evals", None), ("get_stats", []))]
    for n, a in ops:
        s = st.copy()
        s.heap[r.o.id] = {k: v for k, v in s.heap[r.o.id].items() if k != f}
        e0 = len(it.events)
        found = prog().cls(r.c.name).find(n)
        if not found:
            continue
        try:
            if a is None:
                it.deref(s, it.getattr(s, r.o, n))
            else:
                it.method(s, r.o, n, [it.box(s, v) if isinstance(v, T) and v.op == "fresh" else v for v in a])
        except Dead:
            pass
        except Anchor:
            raise
        except Exception:
            return True
        if any(e.kind == "noattr" and e.data.get("attr") == f for e in it.events[e0:]):
            return True
    return False


CHECKS = {"C01": C01, "C02": C02, "C03": C03, "C06": C06, "C07": C07, "C13": C13, "C16": C16, "C12": C12, "C14": C14, "C15": C15, "C05": C05, "C09": C09, "C08": C08, "C04": C04}
