"""Space partitions: C10 (tree pyramid), C11 (HiDaisee).

The partition is put into an arbitrary consistent state - some nodes with symbolic boxes, some of them leaves in some order - and one
operation is applied to it, so what is checked holds at every step of every history of splits."""
from ..terms import *
from ..vals import *
from fractions import Fraction
from ..interp import Interp, State, Dead
from .. import arr, elem, npsem, wit
from ..arr import index, length
from ..elem import Unknown
from ..report import Anchor
from .dists import prog, where
from .samplers import node_hints, lo_, hi_, row_compare, PI_, kish, judge

OLD = "old~0"


def old(i):
    return mk("newobj", mk("key", OLD, num(i)))


class Tree:
    """a partition class built on symbolic bounds, with helpers to read it"""
    dark = False          # the target is zero at the samples

    def __init__(self, cls, node, d, args=()):
        P = prog()
        for n in (cls, node):
            if P.cls(n) is None:
                raise Anchor("class %s not found" % n)
        self.d, self.node = d, P.cls(node)
        self.kernel = args[0].args[1] if args else None
        self.it = it = Interp(P, dim=num(d))
        it.symclasses.add(node)
        node_hints(it, d)
        it.target_syms = set(it.target_syms) | {PI_}
        self.st = st = State()
        st.heap["G:pi"] = st.heap["G:q"] = ZERO
        self.o = it.instantiate(st, P.cls(cls), [it.box(st, lo_(d)), it.box(st, hi_(d))] + list(args), {})

    def get(self, st, f):
        return self.it.deref(st, self.it.getattr(st, self.o, f))

    def of(self, st, n, f):
        return self.it.deref(st, self.it.getattr(st, n if isinstance(n, SObj) else SObj(self.node, n), f))

    def items(self, st, f):
        l = self.it.getattr(st, self.o, f)
        if isinstance(l, Lst) and st.heap[l.id].base is None:
            return [x.id if isinstance(x, SObj) else self.it.deref(st, x) for x in st.heap[l.id].items]
        t = self.it.deref(st, l)
        n = length(t)
        if not is_num(n):
            raise Unknown("length of %s: %s" % (f, show(n)[:100]))
        return [index(t, num(i)) for i in range(int(n.args[0]))]

    def put(self, st, f, v):
        st.heap[self.o.id] = dict(st.heap[self.o.id], **{f: v})

    def els(self, t, n):
        """components of a vector of n numbers, or of one number for all"""
        s = arr.shape(t)
        if s == () or s is None:
            return [elem.el(t, ())] * n
        m = [x for x in s if x is not ONE]
        if not m:
            return [elem.el(t, (ZERO,) * len(s))] * n
        if len(m) > 1 or not is_num(m[0]) or m[0].args[0] != n:
            raise Unknown("%s components" % (s,))
        return [elem.el(t, tuple(num(q) if x is not ONE else ZERO for x in s)) for q in range(n)]


def perform(rep, t, st, key, m, args, w):
    """the operation; one that always fails is a violation"""
    try:
        return t.it.method(st, t.o, m, args)
    except Dead:
        rep.bad(key + ":fails", "%s always fails here" % m, w)
        raise Stop()


class Stop(Exception):
    pass


def stops(f):
    def g(*a):
        try:
            return f(*a)
        except Stop:
            return None
    return g


def fr(nm, *dims):
    return mk("fresh", const("num"), const(nm), *dims)


def say(rep, key, v, good, bad, w):
    (rep.ok if v == "eq" else rep.bad if v == "ne" else rep.unsure)(key, good if v == "eq" else bad, w)


def cmp_els(a, b):
    vs = ["eq" if x is y else row_compare(x, y) for x, y in zip(a, b)]
    return "ne" if "ne" in vs else "eq" if all(v == "eq" for v in vs) else "unknown"


# ------------------------------------------------------------------ C10
def C10(rep):
    rep.rule = ("one split applied to an arbitrary consistent tree (symbolic boxes; several positions of the leaf): every child's centre is the "
                "parent's plus or minus half its radius, each sign pattern once, the radius is halved, and the parallel records and the leaf list "
                "stay aligned with the nodes; nodes not split keep what they have")
    for d in ((1, 2, 3) if rep.tier == "quick" else (1, 2, 3, 4)):
        for kernel in ("haar", "normal"):
            key = "CTreePyramid:%s:d%d" % (kernel, d)
            rep.guard(key, lambda: stops(c10)(rep, key, d, kernel))
    from . import samplers
    samplers.leaf_box(rep)


def aligned(rep, t, st, key, when, w):
    """the invariant: nodes know their place, records have a row per node, leaves are flagged"""
    it, d = t.it, t.d
    nodes, leaves, flags = (t.items(st, f) for f in ("nodes", "leaves", "leaves_idx"))
    M = len(nodes)
    v = "eq"
    for i, n in enumerate(nodes):
        x = t.of(st, n, "node_idx")
        v = worst(v, "eq" if x is num(i) else "ne" if is_num(x) else "unknown")
    say(rep, key + ":node-index", v, "every node remembers its position %s" % when, "some node does not remember its position %s" % when, w)
    v, seen = "eq", set()
    for i, n in enumerate(leaves):
        if n not in nodes:
            v = worst(v, "ne" if n.op == "newobj" else "unknown")
            continue
        seen.add(nodes.index(n))
        x = t.of(st, n, "leaf_idx")
        v = worst(v, "eq" if x is num(i) else "ne" if is_num(x) else "unknown")
    if len(seen) < len(leaves):
        v = worst(v, "ne" if all(n.op == "newobj" for n in leaves) else "unknown")
    say(rep, key + ":leaf-index", v, "every leaf remembers its position among the leaves %s" % when,
        "some leaf does not remember its position among the leaves %s" % when, w)
    v = "eq"
    for i, n in enumerate(nodes):
        if i not in seen:
            x = t.of(st, n, "leaf_idx")
            v = worst(v, "eq" if x is num(-1) else "ne" if is_num(x) else "unknown")
    say(rep, key + ":inner", v, "nodes that are not leaves know it %s" % when, "some node that is not a leaf takes itself for one %s" % when, w)
    v = "eq" if len(flags) == M else "ne"
    for i, x in enumerate(flags[:M]):
        v = worst(v, "eq" if x is (TRUE if i in seen else FALSE) else "ne" if x in (TRUE, FALSE) else "unknown")
    say(rep, key + ":flags", v, "exactly the leaves are flagged %s" % when, "the leaf flags do not match the leaves %s: %s" % (
        when, " ".join(show(x)[:20] for x in flags)), w)
    for f, g in (("centers", "center"), ("radii", "radius")):
        a = t.get(st, f)
        if length(a) is not num(M):
            say(rep, key + ":" + f, "ne" if is_num(length(a)) else "unknown", "", "%s has %s rows for %d nodes %s" % (f, show(length(a))[:60], M, when), w)
            continue
        v = "eq"
        for i, n in enumerate(nodes):
            try:
                x = t.els(index(a, num(i)), d)
                y = t.els(t.of(st, n, g), d)
                v = worst(v, cmp_els(x, y))
            except Unknown:
                v = worst(v, "unknown")
        say(rep, key + ":" + f, v, "row i of %s is the %s of node i %s" % (f, g, when), "row i of %s is not the %s of node i %s" % (f, g, when), w)
    for f in ("samples", "weights"):
        a = t.get(st, f)
        n = length(a)
        v = "eq" if n is num(M) else "ne" if is_num(n) else "unknown"
        if v == "eq" and f == "samples":
            s = arr.shape(a)
            v = "eq" if s is not None and len(s) == 2 and s[1] is num(d) else "unknown" if s is None else "ne"
        say(rep, key + ":" + f, v, "%s has a row per node %s" % (f, when), "%s has %s rows for %d nodes %s" % (f, show(n)[:60], M, when), w)
    return nodes, leaves


def worst(a, b):
    return "ne" if "ne" in (a, b) else "unknown" if "unknown" in (a, b) else "eq"


def tiles(rep, t, st0, st, p, children, key, w):
    """the children halve the box of p along every dimension"""
    d = t.d
    say(rep, key + ":count", "eq" if len(children) == 2 ** d else "ne", "2^%d children" % d, "%d children instead of 2^%d" % (len(children), d), w)
    C, R = t.els(t.of(st0, p, "center"), d), t.els(t.of(st0, p, "radius"), d)
    half = [div(r, num(2)) for r in R]
    v, vr, used = "eq", "eq", {}
    for n in children:
        try:
            c, r = t.els(t.of(st, n, "center"), d), t.els(t.of(st, n, "radius"), d)
        except Unknown:
            v = vr = "unknown"
            continue
        vr = worst(vr, cmp_els(r, half))
        pat = []
        for q in range(d):
            off = sub(c[q], C[q])
            lo = "eq" if off is neg(half[q]) else row_compare(off, neg(half[q]))
            hi = "eq" if off is half[q] else row_compare(off, half[q])
            pat.append(0 if lo == "eq" else 1 if hi == "eq" else None)
            if pat[-1] is None:
                v = worst(v, "ne" if lo == hi == "ne" else "unknown")
        used[tuple(pat)] = used.get(tuple(pat), 0) + 1
    if v == "eq" and (any(k > 1 for k in used.values()) or len(used) != 2 ** d):
        v = "ne"
    say(rep, key + ":centres", v, "the children sit in the %d corners of the box" % 2 ** d, "the children do not sit one in each corner of the box", w)
    say(rep, key + ":radius", vr, "the children have half the radius", "a child's radius is %s, the split leaf's is %s" % (
        show(t.of(st, children[0], "radius"))[:160] if children else "?", show(t.of(st0, p, "radius"))[:100]), w)


def neg(x):
    return sub(ZERO, x)


def same_fields(rep, t, st0, st, old_, key, w, but=()):
    """nodes that take no part keep their attributes"""
    fs = sorted({k[2] for k in st.heap if isinstance(k, tuple) and len(k) == 3 and k[0] == "F" and k[1] == t.node.name})
    v, which = "eq", set()
    for n in old_:
        for f in fs:
            if ("F", t.node.name, f) not in st0.heap:
                continue
            a, b = index(st0.heap[("F", t.node.name, f)], n), index(st.heap[("F", t.node.name, f)], n)
            if a is b:
                continue
            x = "unknown"
            if not is_opaque(b) and not is_opaque(a):
                x = row_compare(a, b) if arr.shape(a) == () else "unknown"
            v = worst(v, x)
            if x != "eq":
                which.add(f)
    say(rep, key + ":others", v, "the other nodes stay as they are", "other nodes change: %s" % ", ".join(sorted(which)), w)


def keeps(rep, t, st0, st, n, fs, key, w):
    """a split does not move the node that is split"""
    v, which = "eq", set()
    for f in fs:
        a, b = t.of(st0, n, f), t.of(st, n, f)
        try:
            x = "eq" if a is b else cmp_els(t.els(a, 1 if arr.rank(a) in (0, None) else t.d), t.els(b, 1 if arr.rank(b) in (0, None) else t.d))
        except Unknown:
            x = "unknown"
        v = worst(v, x)
        if x != "eq":
            which.add(f)
    say(rep, key + ":parent-box", v, "the split node keeps its place and box", "a split changes the %s of the split node" % ", ".join(sorted(which)), w)


def consistent(t, st, M, leaves, kernel):
    """an arbitrary tree: M nodes, the given ones leaves, in this order"""
    it, c, d = t.it, t.node, t.d
    obs = [SObj(c, old(i)) for i in range(M)]
    CE, RA = fr("centers", num(M), num(d)), fr("radii", num(M), ONE)
    t.put(st, "nodes", it.mklist(st, obs, None, ("obj", c)))
    t.put(st, "leaves", it.mklist(st, [obs[i] for i in leaves], None, ("obj", c)))
    t.put(st, "leaves_idx", it.mklist(st, [TRUE if i in leaves else FALSE for i in range(M)], None, ("bool",)))
    t.put(st, "root", obs[0])
    for f, v in (("centers", CE), ("radii", RA), ("samples", fr("samples", num(M), num(d))), ("weights", fr("weights", num(M)))):
        t.put(st, f, it.box(st, v))
    for i, o in enumerate(obs):
        it.setattr(st, o, "node_idx", num(i))
        it.setattr(st, o, "leaf_idx", num(leaves.index(i)) if i in leaves else num(-1))
        it.setattr(st, o, "center", it.box(st, index(CE, num(i))))
        it.setattr(st, o, "radius", it.box(st, index(RA, num(i))))
    return obs


def listed(t, st, r):
    l = t.it.deref(st, r)
    if not isinstance(l, T) or not is_num(length(l)):
        raise Unknown("children: %s" % (l,))
    return [index(l, num(i)) for i in range(int(length(l).args[0]))]


def c10(rep, key, d, kernel):
    w = where("CTreePyramid", "expand")
    t = Tree("CTreePyramid", "CTreePyramidNode", d, [const(kernel)])
    it, st = t.it, t.st
    w0 = where("CTreePyramid", "__init__")
    root = it.getattr(st, t.o, "root")
    aligned(rep, t, st, key + ":new", "in a new tree", w0)
    # the first box contains the search box
    C, R = t.els(t.of(st, root, "center"), d), t.els(t.of(st, root, "radius"), d)
    v = "eq"
    for q in range(d):
        l, h = elem.el(lo_(d), (num(q),)), elem.el(hi_(d), (num(q),))
        v = worst(v, contains_bounds(C[q], R[q], l, h))
    say(rep, key + ":new:box", v, "the root contains the search box", "the root is centred at %s with radius %s" % (
        show(t.of(st, root, "center"))[:100], show(t.of(st, root, "radius"))[:100]), w0)
    # histories from a new tree
    s = st.copy()
    kids = listed(t, s, perform(rep, t, s, key, "expand", [root], w))
    tiles(rep, t, st, s, root, kids, key + ":first", w)
    aligned(rep, t, s, key + ":first", "after the first split", w)
    if d <= 2:
        for i in (0, len(kids) - 1):
            s2 = s.copy()
            k2 = listed(t, s2, perform(rep, t, s2, key, "expand", [SObj(t.node, kids[i])], w))
            tiles(rep, t, s, s2, SObj(t.node, kids[i]), k2, key + ":second%d" % i, w)
            aligned(rep, t, s2, key + ":second%d" % i, "after a second split", w)
    # one split of an arbitrary consistent tree
    for name, M, leaves, pos in (("first-leaf", 9, [3, 5, 8, 2, 7], 0), ("inner-leaf", 9, [3, 5, 8, 2, 7], 1), ("last-leaf", 9, [7, 1, 6, 8], 3),
                                 ("last-node", 6, [5, 4, 3], 0)):
        if d >= 3 and name in ("first-leaf", "last-node"):
            continue
        s0 = st.copy()
        obs = consistent(t, s0, M, leaves, kernel)
        p = obs[leaves[pos]]
        s = s0.copy()
        k = "%s:%s" % (key, name)
        r = perform(rep, t, s, key, "expand", [p], w)
        kids = listed(t, s, r)
        tiles(rep, t, s0, s, p, kids, k, w)
        nodes, lv = aligned(rep, t, s, k, "after a split", w)
        new = [n for n in nodes if n not in {o.id for o in obs}]
        say(rep, k + ":returned", "eq" if set(new) == set(kids) else "ne", "the new nodes are those returned", "the new nodes are not those returned", w)
        say(rep, k + ":kept", "eq" if nodes[:M] == [o.id for o in obs] else "ne", "the nodes there were keep their positions",
            "nodes there were change position", w)
        want = {o.id for i, o in enumerate(obs) if i in leaves and o is not p} | set(kids)
        say(rep, k + ":leaves", "eq" if set(lv) == want else "ne", "the children replace the split leaf among the leaves",
            "after a split the leaves are not the other leaves and the children", w)
        same_fields(rep, t, s0, s, [o.id for o in obs if o is not p], k, w)
        keeps(rep, t, s0, s, p.id, ("center", "radius", "node_idx"), k, w)
        for f in ("samples", "weights"):
            a, b = t.get(s0, f), t.get(s, f)
            v = "eq"
            for i in range(M):
                x, y = index(a, num(i)), index(b, num(i))
                try:
                    v = worst(v, "eq" if x is y else cmp_els(t.els(x, d), t.els(y, d)))
                except Unknown:
                    v = worst(v, "unknown")
            say(rep, "%s:rows:%s" % (k, f), v, "the rows of %s there were stay" % f, "a split changes rows of %s of other nodes" % f, w)
        ch = t.of(s, p, "children")
        try:
            v = "eq" if is_num(length(ch)) and {index(ch, num(i)) for i in range(int(length(ch).args[0]))} == set(kids) else "ne"
        except Unknown:
            v = "unknown"
        say(rep, k + ":children", v, "the split node knows its children", "the split node does not know its children: %s" % show(ch)[:160], w)
        for n, what in ((p.id, "split"), (kids[0], "new")):
            x = it.deref(s, it.method(s.copy(), SObj(t.node, n), "is_leaf", []))
            e = FALSE if what == "split" else TRUE
            say(rep, "%s:is-leaf:%s" % (k, what), "eq" if x is e else "ne" if x in (TRUE, FALSE) else "unknown",
                "the %s node %s a leaf" % (what, "is" if e is TRUE else "is not"), "is_leaf() of the %s node is %s" % (what, show(x)[:60]), w)
        # weight is shared out
        try:
            tot = ZERO
            for n in kids:
                tot = add(tot, t.els(t.of(s, n, "weight"), 1)[0])
            v = row_compare(tot, t.els(t.of(s0, p, "weight"), 1)[0])
        except Unknown:
            v = "unknown"
        say(rep, k + ":weight", v, "the children share the weight of the split leaf", "the weights of the children do not add up to that of the split leaf", w)
        try:
            v = "eq"
            for n in kids:
                a, b = t.of(s, n, "level"), add(t.of(s0, p, "level"), ONE)
                v = worst(v, "eq" if a is b else row_compare(a, b))
        except Unknown:
            v = "unknown"
        say(rep, k + ":level", v, "the children lie one level below the split leaf", "a child's level is not one more than that of the split leaf", w)
        # every child samples its own box
        v = "eq"
        for n in kids:
            D = t.of(s, n, "sampler")
            v = worst(v, own_kernel(t, s, n, D, kernel))
        say(rep, k + ":sampler", v, "a child draws from its own box", "a child's kernel is %s, its centre %s and radius %s" % (
            show(D)[:160], show(t.of(s, kids[-1], "center"))[:100], show(t.of(s, kids[-1], "radius"))[:100]), w)
    # splitting on demand
    s0 = st.copy()
    obs = consistent(t, s0, 9, [3, 5, 8, 2, 7], kernel)
    p = obs[5]
    H = fr("history", cnt_("nhist"))
    it.setattr(s0, p, "weight_hist", it.box(s0, H))
    s = s0.copy()
    tgt, nmin = sym("esstarget", kind="num", rank=0), sym("nmin", kind="num", int=True, nonneg=True, pos=True, rank=0)
    r = perform(rep, t, s, key, "expand", [p, tgt, nmin], w)
    L = t.get(s, "nodes")
    c = none_when(r)
    k = key + ":on-demand"
    n = length(H)
    ess = kish(H)
    want = bor(gt0(sub(nmin, n)), gt0(sub(ess, mul(tgt, n))))
    if c is None:
        rep.unsure(k, "when a leaf is split is not recognised: %s" % (r,), w)
    else:
        v = row_compare(ite(c, ONE, ZERO), ite(want, ONE, ZERO))
        if v != "ne":
            v = on_demand_of_any_size(t, st, kernel, tgt, nmin) or v
        say(rep, k, v, "a leaf is split once it has enough samples and their effective size is not above the target",
            "a leaf is not split when %s" % show(c)[:260], w)
        at_ = sorted({x for x in subterms(c) | subterms(want) if x.op == "gt0"}, key=show)
        v = "eq"
        for bits in range(2 ** len(at_)):
            m = {x: TRUE if bits >> i & 1 else FALSE for i, x in enumerate(at_)}
            if subst(c, m) is not TRUE:
                continue
            for f in ("nodes", "leaves", "leaves_idx", "centers", "radii", "samples", "weights"):
                x, y = t.get(s0, f), subst(t.get(s, f), m)
                v = worst(v, "eq" if x is y else same_list(x, y))
            x, y = t.of(s0, p, "weight_hist"), subst(t.of(s, p, "weight_hist"), m)
            v = worst(v, "eq" if x is y else "ne" if y.op == "deleted" else "unknown")
        say(rep, k + ":kept", v, "a leaf that is not split stays as it is", "a leaf that is not split changes", w)
    rep.functions |= set(it.functions_seen)


def on_demand_of_any_size(t, st, kernel, tgt, nmin):
    """the same for three weights of any magnitude"""
    it, s = t.it, st.copy()
    p = consistent(t, s, 9, [3, 5, 8, 2, 7], kernel)[5]
    H = fr("history3", num(3))
    META.setdefault(H, {})["pos"] = True
    it.setattr(s, p, "weight_hist", it.box(s, H))
    try:
        c = none_when(it.method(s, t.o, "expand", [p, tgt, nmin]))
        if c is None:
            return None
        want = bor(gt0(sub(nmin, num(3))), gt0(sub(kish(H), mul(tgt, num(3)))))
        hs = {elem.el(H, (num(i),)): sym("h3_%d" % i, kind="num", rank=0, pos=True) for i in range(3)}
        a, b = (subst(elem.el(ite(x, ONE, ZERO), ()), hs) for x in (c, want))
        return "ne" if wit.separate(a, b, where=gt0(tgt)) else None
    except (Unknown, Dead):
        return None


def same_list(x, y):
    n, k = length(x), length(y)
    if not is_num(n) or not is_num(k):
        return "unknown"
    if n is not k:
        return "ne"
    v = "eq"
    for i in range(int(n.args[0])):
        a, b = index(x, num(i)), index(y, num(i))
        if a is not b:
            v = worst(v, "ne" if {a, b} == {TRUE, FALSE} or a.op == b.op == "newobj" or is_num(a) and is_num(b) else "unknown")
    return v


def cnt_(nm):
    return sym(nm, kind="num", int=True, nonneg=True, pos=True, rank=0)


def none_when(r):
    """the condition under which nothing is returned"""
    if r is NONE:
        return TRUE
    if isinstance(r, Uni):
        a, b = none_when(r.a), none_when(r.b)
        if a is None or b is None:
            return None
        return ite(r.c, a, b)
    if isinstance(r, (Lst, Tup)):
        return FALSE
    return None


def contains_bounds(c, r, l, h):
    """[c - r, c + r] contains [l, h], given l <= h"""
    v = "eq"
    for slack in (sub(l, sub(c, r)), sub(add(c, r), h)):
        # never negative: decided on random boxes
        x = row_compare(ite(gt0(sub(neg(slack), num(Fraction(1, 10 ** 6)))), ONE, ZERO), ZERO)
        v = worst(v, x)
    return v


def own_kernel(t, st, n, D, kernel, c=None, r=None):
    if not isinstance(D, T) or D.op != "dist":
        return "unknown"
    try:
        if c is None:
            c, r = t.els(t.of(st, n, "center"), t.d), t.els(t.of(st, n, "radius"), t.d)
        v = cmp_els(t.els(D.args[1], t.d), c)
        if t.kernel and ("Uniform" in str(D.args[0])) != (t.kernel != "normal"):
            return "ne"
        if "Uniform" in str(D.args[0]):
            v = worst(v, cmp_els(t.els(D.args[2], t.d), r))
        return v
    except Unknown:
        return "unknown"


# ------------------------------------------------------------------ C11
def C11(rep):
    rep.rule = ("one split applied to an arbitrary consistent tree (symbolic boxes and samples, every dimension the draw can select, every side "
                "every sample can be on): the two children tile the box, share its mass, take its place among the leaves and hold exactly its "
                "samples of their side, weighted by target over their own density, with their own count and effective sample size")
    for d in ((1, 2, 3) if rep.tier == "quick" else (1, 2, 3, 4)):
        key = "CHiDaiseeTree:d%d" % d
        rep.guard(key, lambda: stops(c11)(rep, key, d))


def hidtree(d):
    return Tree("CHiDaiseeTree", "CHiDaiseeNode", d)


def hid_consistent(t, st, M, leaves, at_, rows):
    it, c, d = t.it, t.node, t.d
    obs = [SObj(c, old(i)) for i in range(M)]
    CE, RA = fr("centers", num(M), num(d)), fr("radii", num(M), num(d))
    t.put(st, "nodes", it.mklist(st, obs, None, ("obj", c)))
    t.put(st, "leaves", it.mklist(st, [num(i) for i in leaves], None, ("num",)))
    for i, o in enumerate(obs):
        it.setattr(st, o, "idx", num(i))
        it.setattr(st, o, "center", it.box(st, index(CE, num(i))))
        it.setattr(st, o, "radius", it.box(st, index(RA, num(i))))
        it.setattr(st, o, "q", sym("mass%d" % i, kind="num", nonneg=True, rank=0))
    X = [fr("x%d" % i, num(d)) for i in range(rows)]
    it.setattr(st, obs[at_], "samples", it.box(st, arr.concat(*[arr.single(x) for x in X])))
    return obs, X


def hid_aligned(rep, t, st, key, when, w):
    nodes, leaves = t.items(st, "nodes"), t.items(st, "leaves")
    v = "eq"
    for i, n in enumerate(nodes):
        x = t.of(st, n, "idx")
        v = worst(v, "eq" if x is num(i) else "ne" if is_num(x) else "unknown")
    say(rep, key + ":index", v, "every node remembers its position %s" % when, "some node does not remember its position %s" % when, w)
    v = "eq"
    for x in leaves:
        v = worst(v, "unknown" if not is_num(x) else "eq" if 0 <= x.args[0] < len(nodes) else "ne")
    if len(set(leaves)) < len(leaves):
        v = "ne"
    say(rep, key + ":leaf-list", v, "the leaves are nodes, each once, %s" % when, "the leaf list is %s %s" % (" ".join(show(x)[:30] for x in leaves), when), w)
    return nodes, leaves


def side_atoms(terms, xs, plane, sel):
    """the conditions on which side of the plane a sample is, recognised by their value"""
    out = {}
    for a in {x for t in terms for x in subterms(t) if x.op in ("gt0", "eq0", "ge0")}:
        for i, x in enumerate(xs):
            if not contains(a, x):
                continue
            side = gt0(sub(plane, index(x, num(sel))))
            try:
                v = "eq" if a is side else row_compare(elem.el(ite(a, ONE, ZERO), ()), elem.el(ite(side, ONE, ZERO), ()))
                u = "ne" if v == "eq" else row_compare(elem.el(ite(a, ZERO, ONE), ()), elem.el(ite(side, ONE, ZERO), ()))
            except Unknown:
                continue
            if v == "eq":
                out[a] = (i, True)
            elif u == "eq":
                out[a] = (i, False)
    return out


def contains(t, x):
    return x in subterms(t)


def known(t, m):
    """simplified with the conditions in m decided"""
    for _ in range(8):
        u = subst(t, m)
        if u is t:
            return u
        t = u
    return t


def c11(rep, key, d):
    w, w0 = where("CHiDaiseeTree", "split"), where("CHiDaiseeTree", "__init__")
    t = hidtree(d)
    it, st = t.it, t.st
    nodes, leaves = hid_aligned(rep, t, st, key + ":new", "in a new tree", w0)
    ok = len(nodes) == 1 and leaves == [ZERO]
    say(rep, key + ":new:root", "eq" if ok else "ne", "a new tree is one leaf", "a new tree has %d nodes and %d leaves" % (len(nodes), len(leaves)), w0)
    if ok:
        C, R = t.els(t.of(st, nodes[0], "center"), d), t.els(t.of(st, nodes[0], "radius"), d)
        v = "eq"
        for q in range(d):
            l, h = elem.el(lo_(d), (num(q),)), elem.el(hi_(d), (num(q),))
            v = worst(v, cmp_els([sub(C[q], R[q]), add(C[q], R[q])], [l, h]))
        say(rep, key + ":new:box", v, "the root is the search box", "the root is centred at %s with radius %s" % (
            show(t.of(st, nodes[0], "center"))[:100], show(t.of(st, nodes[0], "radius"))[:100]), w0)
        s = st.copy()
        perform(rep, t, s, key, "split", [ZERO, DVal(PI_)], w)
        c11_split(rep, t, st, s, 0, [], key + ":first", w)
        for who in (1, 2):
            s2 = s.copy()
            it.salt = "second:"
            perform(rep, t, s2, key, "split", [num(who), DVal(PI_)], w)
            it.salt = ""
            c11_split(rep, t, s, s2, who, [], key + ":second%d" % who, w)
    for name, M, lv_, pos, rows in (("empty", 7, [3, 5, 2, 6], 1, 0), ("one", 7, [3, 5, 2, 6], 0, 1), ("two", 7, [5, 2, 6, 3], 3, 2),
                                    ("last", 6, [2, 4, 5], 2, 2), ("three", 5, [4, 1, 3], 0, 3)):
        if rows == 3 and (rep.tier == "quick" and d > 1):
            continue
        s0 = st.copy()
        obs, X = hid_consistent(t, s0, M, lv_, lv_[pos], rows)
        s = s0.copy()
        perform(rep, t, s, key, "split", [num(lv_[pos]), DVal(PI_)], w)
        c11_split(rep, t, s0, s, lv_[pos], X, "%s:%s" % (key, name), w)
    if not (rep.tier == "quick" and d > 2):
        from . import samplers
        s0 = st.copy()
        obs, X = hid_consistent(t, s0, 5, [4, 1, 3], 1, 2)
        s = s0.copy()
        it.dens_hook = samplers.dark_target
        try:
            perform(rep, t, s, key + ":dark", "split", [num(1), DVal(PI_)], w)
        finally:
            it.dens_hook = None
        t.dark = True
        c11_split(rep, t, s0, s, 1, X, key + ":dark", w)
        t.dark = False
    c11_add(rep, t, st, key)
    rep.functions |= set(it.functions_seen)


def selectors(t, s, kids):
    """the terms that say which dimension is split, with the dimensions they can be; none: the rule is deterministic"""
    return {x: (x.args[0], x.args[1]) for x in sorted({x for n in kids for f in ("center", "radius") for x in subterms(t.of(s, n, f))
                                                      if x.op == "randint"}, key=show)}


def c11_split(rep, t, st0, s, who, X, key, w):
    it, d = t.it, t.d
    before = t.items(st0, "nodes")
    n0 = t.items(st0, "leaves")
    M, p = len(before), before[who]
    nodes, leaves = hid_aligned(rep, t, s, key, "after a split", w)
    kids = nodes[M:]
    keeps(rep, t, st0, s, p, ("center", "radius", "idx"), key, w)
    say(rep, key + ":nodes", "eq" if nodes[:M] == before and len(kids) == 2 else "ne", "a split adds two nodes, the others keep their places",
        "a split leaves %d of the %d nodes in place and adds %d" % (sum(1 for a, b in zip(nodes, before) if a is b), M, len(nodes) - M), w)
    if nodes[:M] != before or len(kids) != 2:
        return
    want = sorted([show(x) for x in n0 if x is not num(who)] + [str(M), str(M + 1)])
    say(rep, key + ":leaves", "eq" if sorted(show(x) for x in leaves) == want else "ne", "the children replace the split leaf among the leaves",
        "after node %d is split the leaves are %s" % (who, " ".join(show(x)[:20] for x in leaves)), w)
    same_fields(rep, t, st0, s, [n for n in before if n is not p], key, w)
    # links
    l, r_ = t.of(s, p, "left"), t.of(s, p, "right")
    v = "eq" if {l, r_} == set(kids) else "ne" if not is_opaque(l) and not is_opaque(r_) else "unknown"
    say(rep, key + ":children", v, "the split node knows its children", "the split node's children are %s and %s" % (show(l)[:80], show(r_)[:80]), w)
    if v != "eq":
        return
    v = "eq"
    for n in kids:
        x = t.of(s, n, "parent")
        v = worst(v, "eq" if x in (num(who), p) else "ne" if is_num(x) or x in nodes or x is NONE else "unknown")
    say(rep, key + ":parent", v, "the children know their parent", "a child's parent is %s, node %d was split" % (show(t.of(s, kids[0], "parent"))[:60], who), w)
    for n, side in ((l, "left"), (r_, "right")):
        c = t.of(s, n, "left"), t.of(s, n, "right")
        v = "eq" if c == (NONE, NONE) else "ne" if all(x is NONE or x in nodes for x in c) else "unknown"
        say(rep, "%s:%s:leaf" % (key, side), v, "a new node has no children", "a new node's children are %s and %s" % tuple(show(x)[:60] for x in c), w)
    # mass
    try:
        q = t.els(t.of(st0, p, "q"), 1)[0]
        v = worst(row_compare(t.els(t.of(s, l, "q"), 1)[0], div(q, num(2))), row_compare(t.els(t.of(s, r_, "q"), 1)[0], div(q, num(2))))
    except Unknown:
        v = "unknown"
    say(rep, key + ":mass", v, "the children share the mass of the split node", "the children have masses %s and %s, the split node %s" % (
        show(t.of(s, l, "q"))[:80], show(t.of(s, r_, "q"))[:80], show(t.of(st0, p, "q"))[:80]), w)
    x = t.of(s, p, "samples")
    v = "eq" if x is NONE or x.op in ("empty",) or length(x) is ZERO else "ne" if is_num(length(x)) else "unknown"
    if not X and x is t.of(st0, p, "samples"):
        v = "eq"
    say(rep, key + ":emptied", v, "the split node hands its samples over", "the split node keeps samples: %s" % show(x)[:120], w)
    sels = selectors(t, s, kids)
    if len(sels) > 2:
        rep.unsure(key + ":tiling", "the dimension split depends on %d draws" % len(sels), w)
        return
    cases = [{}]
    for x, (lo, hi) in sels.items():
        if not is_num(lo) or not is_num(hi):
            rep.unsure(key + ":tiling", "the dimensions to choose from are %s to %s" % (show(lo)[:60], show(hi)[:60]), w)
            return
        lo, hi = int(lo.args[0]), int(hi.args[0])
        say(rep, key + ":dimension", "eq" if (lo, hi) == (0, d) else "ne", "every dimension can be split", "the dimension is drawn from %d..%d, there are %d"
            % (lo, hi - 1, d), w)
        cases = [{**m, x: num(i)} for m in cases for i in range(max(lo, 0), min(hi, d))]
    for m in cases:
        c11_case(rep, t, st0, s, p, l, r_, X, m, key if not m else "%s:dim%s" % (key, "".join(show(y) for y in m.values())), w)


def c11_case(rep, t, st0, s, p, l, r_, X, m, key, w):
    it, d = t.it, t.d
    g = lambda n, f: subst(t.of(s, n, f), m)
    C, R = (t.els(subst(t.of(st0, p, f), m), d) for f in ("center", "radius"))
    c = {n: t.els(g(n, "center"), d) for n in (l, r_)}
    r = {n: t.els(g(n, "radius"), d) for n in (l, r_)}
    # one dimension is halved, the others are the parent's
    halved, v = [], "eq"
    for q in range(d):
        same = worst(cmp_els([r[l][q], r[r_][q]], [R[q]] * 2), cmp_els([c[l][q], c[r_][q]], [C[q]] * 2))
        h = div(R[q], num(2))
        half = worst(cmp_els([r[l][q], r[r_][q]], [h] * 2), cmp_els([c[l][q], c[r_][q]], [sub(C[q], h), add(C[q], h)]))
        swap = worst(cmp_els([r[l][q], r[r_][q]], [h] * 2), cmp_els([c[l][q], c[r_][q]], [add(C[q], h), sub(C[q], h)]))
        if half == "eq" or swap == "eq":
            halved.append((q, half == "eq"))
        elif same != "eq":
            v = worst(v, "ne" if "ne" in (same,) and half == swap == "ne" else "unknown")
    if v == "eq" and len(halved) != 1:
        v = "ne"
    say(rep, key + ":tiling", v, "the children are the two halves of the box", "the children are centred at %s and %s with radius %s, the split box at %s with radius %s" % (
        show(g(l, "center"))[:90], show(g(r_, "center"))[:90], show(g(l, "radius"))[:90], show(t.of(st0, p, "center"))[:60],
        show(t.of(st0, p, "radius"))[:60]), w)
    v = "eq"
    for n in (l, r_):
        D = g(n, "sampler")
        v = worst(v, own_kernel(t, st0, n, D, "uniform", c[n], r[n]))
    say(rep, key + ":density", v, "a child draws from its own box", "a child's density is %s" % show(g(l, "sampler"))[:200], w)
    if len(halved) != 1:
        return
    sel, lower = halved[0]
    if not lower:
        l, r_ = r_, l
    plane = index(subst(t.of(st0, p, "center"), m), num(sel))
    terms = [g(n, f) for n in (l, r_) for f in ("samples", "weights", "N", "ESS")]
    atoms = side_atoms(terms, X, plane, sel)
    for n, sign, nm in ((l, 1, "lower"), (r_, -1, "upper")) if len(X) == 1 else ():
        tot = ZERO
        for x in X:
            side = gt0(sub(plane, index(x, num(sel))))
            tot = add(tot, ite(side, ONE, ZERO) if sign > 0 else ite(side, ZERO, ONE))
        for f in ("samples", "N"):
            y = length(g(n, f)) if f == "samples" else g(n, f)
            try:
                v = "unknown" if arr.contains_op(y, "opaque") else row_compare(elem.el(y, ()), elem.el(tot, ()))
            except Unknown:
                v = "unknown"
            say(rep, "%s:%s:%s-side" % (key, nm, f), v, "the samples go to the child whose box they are in",
                "a child is given %s of the samples, not those on its side of the middle" % show(y)[:200], w)
    for bits in range(2 ** len(X)):
        low = [bool(bits >> i & 1) for i in range(len(X))]
        am = {a: TRUE if low[i] == pos else FALSE for a, (i, pos) in atoms.items()}
        sides = "".join("<" if b else ">" for b in low)
        for n, mine, nm in ((l, [x for x, b in zip(X, low) if b], "lower"), (r_, [x for x, b in zip(X, low) if not b], "upper")):
            k = "%s:%s%s" % (key, nm, ":" + sides if X else "")
            S, W, N, E = (known(g(n, f), am) for f in ("samples", "weights", "N", "ESS"))
            L = length(S)
            v = "eq" if L is num(len(mine)) else "ne" if is_num(L) else "unknown"
            if not X and not is_num(L):
                v = "unknown"
            why = "it holds %s samples, %d are on its side" % (show(L)[:80], len(mine))
            D = subst(t.of(s, n, "sampler"), m)
            rows = []
            if v == "eq":
                for i, x in enumerate(mine):
                    try:
                        y = t.els(index(S, num(i)), d)
                        v = worst(v, cmp_els(y, t.els(x, d)))
                    except Unknown:
                        v = worst(v, "unknown")
                why = "its samples are not those of its side: %s" % show(S)[:200]
            say(rep, k + ":samples", v, "a child holds the samples of its side", why, w)
            if v != "eq":
                continue
            want = [ZERO if t.dark else exp(sub(npsem.logp(it, PI_, x), npsem.logp(it, D, x))) for x in mine]
            v = "eq" if length(W) is num(len(mine)) else "ne" if is_num(length(W)) else "unknown"
            if v == "eq":
                for i, y in enumerate(want):
                    try:
                        a, b = elem.el(index(W, num(i)), (ZERO,) * (arr.rank(index(W, num(i))) or 0)), elem.el(y, (ZERO,) * (arr.rank(y) or 0))
                        v = worst(v, "eq" if a is b else row_compare(a, b))
                    except Unknown:
                        v = worst(v, "unknown")
            say(rep, k + ":weights", v, "a child weights its samples with its own density", "a child's weights are %s, expected %s" % (
                show(W)[:200], " ".join(show(x)[:120] for x in want)), w)
            v = row_compare(elem.el(N, ()), num(len(mine))) if arr.rank(N) in (0, None) else "unknown"
            say(rep, k + ":count", v, "a child counts its samples", "a child with %d samples counts %s" % (len(mine), show(N)[:100]), w)
            if not mine or t.dark:
                continue
            try:
                Wl = [elem.el(x, (ZERO,) * (arr.rank(x) or 0)) for x in want]
                tot = sq = ZERO
                for x in Wl:
                    tot, sq = add(tot, x), add(sq, mul(x, x))
                v = row_compare(elem.el(E, (ZERO,) * (arr.rank(E) or 0)), div(mul(tot, tot), sq))
            except Unknown:
                v = "unknown"
            say(rep, k + ":ess", v, "a child knows the effective size of its samples", "a child's effective sample size is %s" % show(E)[:200], w)


def c11_add(rep, t, st, key):
    """a node's statistics are those of its samples, also when samples are added to samples it holds"""
    it, d = t.it, t.d
    w = where(t.node.name, "add_sample")
    for nm, n in (("none", 0), ("one", 1), ("many", None)):
        s = st.copy()
        o = SObj(t.node, old(0))
        k = "%s:add:%s" % (key, nm)
        L = add(ONE, cnt_("nheld")) if n is None else num(n)
        S, W = (fr("S", L, num(d)), fr("W", L)) if n != 0 else (arr.concat(), arr.concat())
        it.setattr(s, o, "samples", it.box(s, S))
        it.setattr(s, o, "weights", it.box(s, W))
        x, y = fr("x", num(1), num(d)), fr("w", num(1))
        it.method(s, o, "add_sample", [it.box(s, x), it.box(s, y)])
        aS, aW, N, E = (t.of(s, o, f) for f in ("samples", "weights", "N", "ESS"))
        wS, wW = (arr.concat(S, x), arr.concat(W, y)) if n != 0 else (x, y)
        for what, a, b in (("samples", aS, wS), ("weights", aW, wW)):
            v = "eq" if a is b else "unknown"
            if v != "eq":
                v = "ne" if length(a) is not length(b) and is_num(sub(length(a), length(b))) else "unknown"
                try:
                    if v == "unknown" and arr.rank(a) == arr.rank(b):
                        i = sym("i0", kind="num", int=True, nonneg=True, rank=0)
                        g = tuple([i] + [num(0)] * (arr.rank(a) - 1))
                        v = row_compare(elem.el(a, g), elem.el(b, g))
                except Unknown:
                    pass
            say(rep, k + ":" + what, v, "added %s follow those held" % what, "after adding, the %s are %s" % (what, show(a)[:160]), w)
        v = "eq" if N is length(wS) else row_compare(elem.el(N, ()), elem.el(length(wS), ()))
        say(rep, k + ":count", v, "a node counts its samples", "a node with %s samples counts %s" % (show(length(wS)), show(N)[:100]), w)
        judge(rep, k + ":ess", "the effective sample size of a node", E, kish(wW), w)


CHECKS = {"C10": C10, "C11": C11}
