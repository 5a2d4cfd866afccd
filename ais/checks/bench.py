"""Benchmark driver: C40 C41 C42 C43 C45 C46 C47 (and its part of C05).

CBenchmark.run is interpreted over configuration files whose *structure* is small (three targets, two methods, a list of
metrics) and whose every value is a symbol; targets and methods are opaque objects, so what they do is immaterial and every
call on them is recorded, in order, with its path condition and its loops.  The rules below are about that record.
"""
import ast
import re
import time as _time

from ..terms import *
from ..vals import *
from .. import arr
from ..arr import length, index
from ..interp import Interp, State, Dead
from ..report import Anchor
from .dists import prog

NT, NM = 3, 2
CLASS_OF = {"KLD": "CKLDivergence", "JSD": "CJSDivergence", "EVMSE": "CExpectedValueMSE", "T": "CElapsedTime", "MEM": "CMemoryUsage"}
LISTS = [["KLD", "JSD", "EVMSE", "T", "MEM"], ["JSD", "T"], ["MEM", "EVMSE", "KLD"], ["T"], []]
FIXED = {"dims", "output_samples", "NESS", "method", "target_d", "accept_rate", "proposal_samples", "proposal_evals", "target_evals"}
CACHE = {}


def N(n, **k):
    return sym(n, kind="num", rank=0, **k)


def S_(n):
    return sym(n, kind="str", rank=0)


def B_(n):
    return sym(n, kind="bool", rank=0)


def files(metrics):
    return {
        "BENCHFILE": {"targets": [{
            "name": S_("t%d.name" % i), "type": S_("t%d.type" % i), "params": S_("t%d.params" % i),
            "batch_size": N("t%d.batch" % i, int=True, pos=True), "nsamples": N("t%d.nsamples" % i, int=True),
            "nsamples_eval": N("t%d.neval" % i, int=True)} for i in range(NT)]},
        "METHFILE": {"methods": [{
            "name": S_("m%d.name" % j), "type": S_("m%d.type" % j), "debug": B_("m%d.debug" % j),
            "params": {"p%d" % j: S_("m%d.p" % j), "r%d" % j: S_("m%d.r" % j)}} for j in range(NM)]},
        "CONFFILE": {
            "metrics": list(metrics), "nreps": N("c.nreps", int=True), "rseed": N("c.rseed", int=True),
            "debug": {"text": B_("c.text"), "plot": {"show": B_("c.show"), "save": B_("c.save"), "path": S_("c.path")}},
            "output": {"file": S_("c.outfile"), "make_plots": B_("c.mkplots"), "plots_path": S_("c.plots"), "plots_dpi": N("c.dpi")}},
    }


class Pair:
    """one sampling call site reached for one target and one method"""

    def __init__(self, tr, pos, ev):
        self.tr, self.pos, self.ev = tr, pos, ev
        self.method = who(ev.data["recv"], "METHOD")
        self.kw = tr.bind("CSamplingMethod", "importance_sample", ev)
        t = self.kw.get("target_d")
        self.target = who(t, "TARGET") if t is not None else None
        self.li = tr.loop(ev.loops[-1]) if ev.loops else None
        outer = [tr.loop(l) for l in ev.loops[:-1]]
        self.rep = outer[-1] if outer else None
        self.inside = [(i, e) for i, e in enumerate(tr.evs) if self.li is not None and self.li.lid in e.loops]
        self.inrep = [(i, e) for i, e in enumerate(tr.evs) if self.rep is not None and self.rep.lid in e.loops]

    @property
    def name(self):
        return "%s on %s" % (self.method, self.target)

    def metric(self, op):
        return [(i, e) for i, e in self.inside if e.kind == "metric" and e.data["op"] == op]

    def objs(self):
        out = []
        for i, e in self.inside:
            if e.kind == "metric" and e.data["obj"] not in out:
                out.append(e.data["obj"])
        return out


def who(t, what):
    """TARGET1 / METHOD0 (without the object number)"""
    t = xt(t)
    if t is None or t.op != "sym":
        return None
    m = re.match(r"(%s\d+)(#\d+)?$" % what, str(t.args[0]))
    return m.group(1) if m else None


def xt(v):
    if isinstance(v, T):
        return v
    return getattr(v, "term", None) or getattr(v, "t", None)


class Trace:
    def __init__(self, metrics, runs=1):
        P = prog()
        cb = P.classes.get("CBenchmark")
        if cb is None or cb.find("run") is None:
            raise Anchor("CBenchmark.run is gone")
        self.metrics = metrics
        self.it = it = Interp(P)
        st = State()
        conf = files(metrics)

        def conv(st, v):
            if isinstance(v, dict):
                return it.mkdict(st, {const(k): conv(st, x) for k, x in v.items()})
            if isinstance(v, list):
                return it.mklist(st, [conv(st, x) for x in v])
            return const(v) if isinstance(v, str) else v

        def yload(it_, f, args, kw, st):
            t = it.deref(st, args[0]) if args else None
            ns = [str(x.args[0]) for x in subterms(t) if x.op == "sym" and str(x.args[0]) in conf] if isinstance(t, T) else []
            if not ns:
                return NotImplemented
            it.event(st, "load", file=ns[0])
            return conv(st, conf[ns[0]])
        for n in ("yaml.load", "yaml.safe_load", "yaml.full_load"):
            it.hooks["ext:" + n] = yload
        it.hooks["ext:pprint.pformat"] = lambda it_, f, args, kw, st: mk("ext", "pformat", it.deref(st, args[0]))

        def ev(it_, st, code):
            for x in subterms(code):
                if x.op == "sym":
                    m = re.match(r"(t|m)(\d+)\.type$", str(x.args[0]))
                    if m:
                        nm = {"t": "TARGET", "m": "METHOD"}[m.group(1)] + m.group(2)
                        return XObj(sym(nm if m.group(1) == "t" else "%s#%d" % (nm, it.fresh()), kind="obj"))
            return None
        it.eval_hook = ev

        def mockm(op):
            def h(it_, f, args, kw, st):
                if f.self_ is None:
                    return NotImplemented
                it.event(st, "metric", op=op, obj=f.self_, args=list(args), kw=dict(kw))
                return sym("val:%s:%d" % (f.self_.cls.name, it.fresh()), kind="num", rank=0) if op == "compute" else NONE
            return h
        for c in P.classes.values():
            if c.is_sub("CMetric"):
                for op in ("pre", "post", "compute", "reset"):
                    if op in c.methods:
                        it.hooks["%s.%s" % (c.name, op)] = mockm(op)
        b = it.instantiate(st, cb, [], {})
        self.starts = []
        self.dead = False
        for r in range(runs):
            self.starts.append(len(it.events))
            try:
                it.method(st, b, "run", [S_("BENCHFILE"), S_("METHFILE"), S_("CONFFILE"), S_("OUTFILE")])
            except Dead:
                self.dead = True
                if not r:
                    raise
        ctors = {"%s.__init__" % c.name for c in P.classes.values() if c.is_sub("CMetric")}
        self.all = it.events
        self.evs = [e for e in it.events[self.starts[-1]:] if not any(f in ctors for f in e.stack)]
        self.lis = {li.lid: li for li in it.loopinfos}
        self.pairs = [Pair(self, i, e) for i, e in enumerate(self.evs) if e.kind == "extmeth" and e.data["name"] == "importance_sample"]
        if not self.pairs and not self.dead:
            raise Anchor("CBenchmark.run reaches no call of importance_sample")
        self.st = st

    def loop(self, lid):
        return self.lis.get(lid)

    def bind(self, cls, meth, e):
        """arguments of a recorded call by the name the base class gives them"""
        out = {}
        c = prog().classes.get(cls)
        names = []
        if c is not None and c.find(meth):
            names = [a.arg for a in c.find(meth)[2].node.args.args[1:]]
        for n, v in zip(names, e.data["args"]):
            out[n] = v
        for n, v in e.data["kw"].items():
            out[str(n)] = v
        return out

    def term(self, v):
        if v is None:
            return None
        if isinstance(v, (Dct, Lst, Obj, Tup)):
            return None
        t = xt(v)
        if t is not None:
            return t
        try:
            return self.it.deref(self.st, v)
        except Exception:
            return None


def trace(metrics, runs=1):
    k = (tuple(metrics), runs)
    if k not in CACHE:
        CACHE[k] = Trace(metrics, runs)
    return CACHE[k]


def traces(rep, lists=LISTS):
    for ms in lists:
        tr = rep.guard("trace[%s]" % ",".join(ms), trace, ms)
        if tr is not None:
            rep.functions |= {f for f in tr.it.functions_seen if f.startswith("CBenchmark")}
            yield tr


def settled(t):
    """no part of the value is unknown to the analysis"""
    return isinstance(t, T) and not arr.contains_op(t, "opaque")


def extra(pc, base):
    """conditions of pc that base does not have"""
    b = set(base)
    return [c for c in pc if c not in b and not isinstance(c, str)]


def conds(e):
    return [c for c in e.pc]


def at_rate(tr, val, pc):
    m = {N("c.rseed", int=True): num(val)}
    out = TRUE
    for c in pc:
        if not isinstance(c, T):
            return None
        out = band(out, subst(c, m))
    return True if out is TRUE else False if out is FALSE else None


W_ = "CBenchmark.evaluate_method"
MORE = ("every configured value is a symbol; three targets, two methods, metric lists %s" % " ".join("[%s]" % ",".join(l) for l in LISTS))


# ------------------------------------------------------------------ C42
SILENT = {"clock", "dictset", "inplace", "metric", "extset", "setattr", "call", "assert", "new", "facts"}


def C42(rep):
    rep.rule = ("in the recorded run of each method on each target: in the iteration that samples, every metric used is begun exactly once "
                "before and ended exactly once after the sampling call, on every path that samples; between the first begin and the last "
                "end the only other action is the sampling call; every metric is computed after it")
    rep.assumptions += [MORE, "reading the clock or an attribute is no work"]
    for tr in traces(rep):
        for p in tr.pairs:
            c42(rep, tr, p)


def c42(rep, tr, p):
    k = "%s|%s" % (",".join(tr.metrics), p.name)
    if p.li is None:
        rep.unsure(k + ":loop", "the sampling call is in no loop", W_)
        return
    samp = [i for i, e in p.inside if e.kind == "extmeth" and e.data["name"] == "importance_sample"]
    if len(samp) != 1:
        rep.unsure(k + ":calls", "%d sampling calls in one iteration" % len(samp), W_)
        return
    at = samp[0]
    objs = p.objs()
    if not objs and tr.metrics:
        (rep.unsure if "NESS" in tr.metrics else rep.bad)(k + ":used", "no metric is used", W_)
        return
    if not objs:
        rep.ok(k + ":used", "no metric configured, none used", W_)
    first = last = at
    for o in objs:
        for op, side in (("pre", "before"), ("post", "after")):
            mine = [(i, e) for i, e in p.metric(op) if e.data["obj"] is o]
            kk = "%s:%s.%s" % (k, o.cls.name, op)
            right = [(i, e) for i, e in mine if (i < at) == (op == "pre")]
            if not mine:
                rep.bad(kk, "%s of %s is not called around the sampling call" % (op, o.cls.name), W_)
            elif len(right) != 1 or len(mine) != 1:
                if all(not extra(e.pc, p.ev.pc) and e.loops == p.ev.loops for _, e in mine):
                    rep.bad(kk, "%s of %s runs %d times %s and %d times on the other side of the sampling call" % (
                        op, o.cls.name, len(right), side, len(mine) - len(right)), mine[0][1].where)
                else:
                    rep.unsure(kk, "several conditional calls", mine[0][1].where)
            else:
                i, e = right[0]
                ex = extra(e.pc, p.ev.pc)
                if e.loops != p.ev.loops:
                    rep.unsure(kk, "in another loop", e.where)
                elif ex and all(settled(c) for c in ex):
                    rep.bad(kk, "%s of %s only happens if %s" % (op, o.cls.name, " and ".join(show(c)[:80] for c in ex)), e.where)
                elif ex:
                    rep.unsure(kk, "conditional", e.where)
                else:
                    rep.ok(kk, "once, %s the sampling call" % side, e.where)
                first, last = min(first, i), max(last, i)
    noise = [e for i, e in p.inside if first <= i <= last and i != at and not (e.kind == "metric" and e.data["op"] in ("pre", "post"))
             and e.kind not in SILENT]
    noise += [e for i, e in p.inside if first <= i <= last and e.kind == "metric" and e.data["op"] in ("compute", "reset")]
    if noise:
        for e in noise[:3]:
            d = e.data
            rep.bad("%s:between:%s" % (k, d.get("name") or d.get("op") or e.kind), "%s %s happens while the metrics measure the sampling call" % (
                e.kind, d.get("name") or d.get("op") or ""), e.where)
    elif objs:
        rep.ok(k + ":between", "only the sampling call is measured", W_)
    for i, e in p.metric("compute"):
        if i < at:
            rep.bad("%s:%s.compute" % (k, e.data["obj"].cls.name), "%s is computed before the sampling call its row reports" % e.data["obj"].cls.name, e.where)
        elif i < last:
            pass
        else:
            rep.ok("%s:%s.compute" % (k, e.data["obj"].cls.name), "computed after the sampling call", e.where)


# ------------------------------------------------------------------ C43
def C43(rep):
    rep.rule = ("the recorded run of a configuration with three targets and two methods samples every (method, target) pair in exactly one "
                "place; each sampling call, metric computation, repetition count and output file there is the pair's own configured value; "
                "a second run of the same object gives the same pairs")
    rep.assumptions += [MORE]
    for tr in traces(rep):
        pairs_once(rep, tr, "")
        for p in tr.pairs:
            c43(rep, tr, p)
    tr = rep.guard("trace:reload", trace, ["JSD", "T"], 2)
    if tr is not None:
        if tr.dead:
            rep.bad("reload:dies", "running the same benchmark object a second time always ends in an error", "CBenchmark.run")
            return
        pairs_once(rep, tr, "reload:")
        n = len([e for e in tr.evs if e.kind == "metric" and e.data["op"] == "compute"])
        m = len([e for e in trace(["JSD", "T"]).evs if e.kind == "metric" and e.data["op"] == "compute"])
        (rep.ok if n == m else rep.bad)("reload:metrics", "%d metric computations in the first run, %d in the second" % (m, n), "CBenchmark.run")


def pairs_once(rep, tr, tag):
    k = tag + ",".join(tr.metrics)
    seen = {}
    for p in tr.pairs:
        if p.method is None or p.target is None:
            rep.unsure(k + "|whom", "a sampling call whose method or target is not one of the configured", p.ev.where)
            return
        seen.setdefault((p.method, p.target), []).append(p)
    for j in range(NM):
        for i in range(NT):
            n = len(seen.pop(("METHOD%d" % j, "TARGET%d" % i), []))
            kk = "%s|pair:METHOD%d on TARGET%d" % (k, j, i)
            if n == 1:
                rep.ok(kk, "evaluated in one place", "CBenchmark.run")
            else:
                rep.bad(kk, "method %d of 2 is evaluated %d times on target %d of 3%s" % (j + 1, n, i + 1, " after reloading" if tag else ""), "CBenchmark.run")
    for (a, b), l in seen.items():
        rep.bad("%s|pair:%s on %s" % (k, a, b), "%s evaluated on %s" % (a, b), "CBenchmark.run")


def same(rep, kk, got, want, msg, where):
    if got is None or not settled(got):
        rep.unsure(kk, "%s is not known to the analysis" % msg, where)
    elif got is want or equal(got, want):
        rep.ok(kk, "%s is the configured one" % msg, where)
    else:
        rep.bad(kk, "%s is %s, expected %s" % (msg, show(got)[:120], show(want)[:120]), where)


def c43(rep, tr, p):
    k = "%s|%s" % (",".join(tr.metrics), p.name)
    ti = p.target and p.target[6:]
    if ti is None or p.method is None:
        return
    comp = p.metric("compute")
    names = [e.data["obj"].cls.name for _, e in comp]
    want = [CLASS_OF[m] for m in tr.metrics if m in CLASS_OF]
    if sorted(names) == sorted(want):
        rep.ok(k + ":metrics", "exactly the configured metrics are computed", W_)
    else:
        rep.bad(k + ":metrics", "computes %s, configured are %s" % (names, want), W_)
    for _, e in comp:
        kw = tr.bind("CMetric", "compute", e)
        kk = "%s:%s" % (k, e.data["obj"].cls.name)
        for par, w in (("p", p.kw["target_d"]), ("q", p.ev.data["recv"])):
            g = tr.term(kw.get(par))
            if g is None:
                rep.unsure("%s:%s" % (kk, par), "not given by name", e.where)
            else:
                (rep.ok if g is xt(w) else rep.bad)("%s:%s" % (kk, par), "compares the target with the method" if g is xt(w) else
                                                    "%s of the comparison is %s, expected %s" % (par, show(g)[:60], show(xt(w))[:60]), e.where)
        same(rep, kk + ":nsamples", tr.term(kw.get("nsamples")), N("t%s.neval" % ti, int=True), "the evaluation sample count", e.where)
    if p.rep is None:
        rep.unsure(k + ":nreps", "the sampling loop is in no repetition loop", W_)
    else:
        same(rep, k + ":nreps", p.rep.trip, N("c.nreps", int=True), "the number of repetitions", p.rep.where)
    files_ = {tr.term(e.data["args"][0]) for _, e in p.inside if e.kind == "open" and e.data["args"]}
    if len(files_) == 1:
        same(rep, k + ":file", list(files_)[0], S_("OUTFILE"), "the results file", W_)
    else:
        rep.unsure(k + ":file", "%d files are opened" % len(files_), W_)


# ------------------------------------------------------------------ C45
def size_zero(t):
    """len of no samples"""
    return t


def C45(rep):
    rep.rule = ("the number of samples requested, as a function of the sampling loop's variables, is one batch at entry and the length of the "
                "last result plus one batch after each iteration; the loop goes on exactly while that length is below the target's sample "
                "count, unless time is out; each iteration writes one row, after sampling, on every path")
    rep.assumptions += [MORE]
    for tr in traces(rep, LISTS[:2]):
        for p in tr.pairs:
            c45(rep, tr, p)


def timed(t):
    return any(s.op == "clock" for s in subterms(t))


def conj(t):
    return [y for x in t.args for y in conj(x)] if t.op == "and" else [t]


def disj(t):
    return [y for x in t.args for y in disj(x)] if t.op == "or" else [t]


def c45(rep, tr, p):
    k = "%s|%s" % (",".join(tr.metrics), p.name)
    ti = p.target and p.target[6:]
    if p.li is None or ti is None:
        rep.unsure(k + ":loop", "the sampling call is in no loop", W_)
        return
    li = p.li
    batch, total = N("t%s.batch" % ti, int=True, pos=True), N("t%s.nsamples" % ti, int=True)
    got = sub_len(p)
    n = tr.term(p.kw.get("n_samples"))
    if n is None:
        rep.unsure(k + ":request", "the request size is not known", p.ev.where)
        return
    m0 = {m: li.init.get(l) for l, m in li.mus.items() if m is not None and isinstance(li.init.get(l), T)}
    m1 = {m: li.step.get(l) for l, m in li.mus.items() if m is not None and isinstance(li.step.get(l), T)}
    same(rep, k + ":first", subst(n, m0), batch, "the first request", p.ev.where)
    same(rep, k + ":next", subst(n, m1), add(got, batch), "the request after an iteration", p.ev.where)
    on = [y for c in p.ev.pc if isinstance(c, T) for y in conj(c)]
    early = [x for x in li.breaks if isinstance(x, T) and all(y in on for y in conj(bnot(x)))]
    late = [x for x in li.breaks if isinstance(x, T) and x not in early and not timed(x)]
    cond = band(li.cond if isinstance(li.cond, T) else TRUE, *[bnot(x) for x in early])
    more = [c for c in on if c not in conj(cond) and not timed(c)]
    if more:
        rep.unsure(k + ":always", "an iteration only samples if %s" % " and ".join(show(c)[:80] for c in more), p.ev.where)
    go0 = band(*[c for c in conj(subst(cond, m0)) if not timed(c)])
    go1 = band(*([c for c in conj(subst(cond, m1)) if not timed(c)] + [bnot(x) for x in late]))
    for kk, go, base, what in ((":enter", go0, ZERO, "sampling starts"), (":until", go1, got, "sampling goes on")):
        v, at = "eq", None
        for d in (-7, -1, 0, 1, 2, 9):
            x = subst(go, {total: add(base, num(d))})
            want = TRUE if d > 0 else FALSE
            if go is TRUE and kk == ":enter" or x is want:
                continue
            if x in (TRUE, FALSE):
                v, at = "ne", d
                break
            v = "unknown"
        if v == "eq":
            rep.ok(k + kk, "%s exactly while fewer samples than requested were obtained" % what, li.where)
        elif v == "ne":
            rep.bad(k + kk, "%s when %s" % (what if x is TRUE else what.replace("starts", "does not start").replace("goes", "does not go"),
                                            "all samples are obtained (%d too many)" % -at if at <= 0 else "%d samples are missing" % at), li.where)
        else:
            rep.unsure(k + kk, "%s while %s" % (what, show(go)[:100]), li.where)
    rows = rows_of(tr, p)
    if len(rows) != 1:
        rep.unsure(k + ":row", "%d writes in an iteration" % len(rows), W_) if rows else rep.bad(k + ":row", "no row is written in an iteration", W_)
    else:
        i, e = rows[0]
        ex = [c for c in extra(e.pc, p.ev.pc)]
        if e.loops != p.ev.loops:
            rep.bad(k + ":row", "the row is not written once per iteration", e.where)
        elif ex and all(settled(c) for c in ex):
            rep.bad(k + ":row", "the row is only written if %s" % " and ".join(show(c)[:80] for c in ex), e.where)
        elif ex:
            rep.unsure(k + ":row", "the row is written conditionally", e.where)
        elif i < p.pos:
            rep.bad(k + ":row", "the row is written before sampling", e.where)
        else:
            rep.ok(k + ":row", "one row per iteration, after sampling", e.where)


def sub_len(p):
    """number of samples a sampling call returned"""
    return length(index(p.ev.data["res"], ZERO))


def rows_of(tr, p):
    return [(i, e) for i, e in p.inside if e.kind == "extmeth" and e.data["name"] == "write" and isinstance(xt(e.data["recv"]), T)
            and "file" in [a for a in xt(e.data["recv"]).args if isinstance(a, str)] + [str(a.args[0]) for a in xt(e.data["recv"]).args if isinstance(a, T) and a.args]]


# ------------------------------------------------------------------ C47
def C47(rep):
    rep.rule = ("in each repetition, before the loop that samples, the method and every metric used are reset unconditionally, after any "
                "other use in that repetition; nothing the sampling loop starts with depends on an earlier repetition")
    rep.assumptions += [MORE]
    for tr in traces(rep, LISTS[:3]):
        for p in tr.pairs:
            c47(rep, tr, p)


def c47(rep, tr, p):
    k = "%s|%s" % (",".join(tr.metrics), p.name)
    if p.li is None or p.rep is None:
        rep.unsure(k + ":loop", "no repetition loop around the sampling loop", W_)
        return
    start = min(i for i, e in p.inside)
    before = [(i, e) for i, e in p.inrep if i < start]
    base = [e for i, e in p.inrep]
    rpc = set(base[0].pc) if base else set()
    for e in base:
        rpc &= set(e.pc)

    def judge(kk, what, hits):
        if not hits:
            outside = any(x.kind in ("extmeth", "metric") and (x.data.get("name") or x.data.get("op")) == "reset" for i, x in enumerate(tr.evs) if i < start)
            rep.bad(kk, "%s is not reset in each repetition before sampling%s" % (what, " (only before all repetitions)" if outside else ""), p.rep.where)
            return
        good = [e for i, e in hits if not [c for c in e.pc if c not in rpc] and e.loops == p.li_outer]
        if good:
            rep.ok(kk, "%s is reset in each repetition before sampling" % what, good[0].where)
        elif all(settled(c) for i, e in hits for c in e.pc if isinstance(c, T)) and all(e.loops == p.li_outer for _, e in hits):
            rep.bad(kk, "%s is only reset if %s" % (what, " / ".join(" and ".join(show(c)[:60] for c in e.pc if c not in rpc and isinstance(c, T)) for _, e in hits)), hits[0][1].where)
        else:
            rep.unsure(kk, "%s is reset conditionally" % what, hits[0][1].where)
    p.li_outer = p.ev.loops[:-1]
    judge(k + ":method", "the method", [(i, e) for i, e in before if e.kind == "extmeth" and e.data["name"] == "reset" and xt(e.data["recv"]) is xt(p.ev.data["recv"])])
    for o in p.objs():
        judge("%s:%s" % (k, o.cls.name), "metric %s" % o.cls.name, [(i, e) for i, e in before if e.kind == "metric" and e.data["op"] == "reset" and e.data["obj"] is o])
    # what the sampling loop starts from
    outer = set()
    for l in p.ev.loops[:-1]:
        lj = tr.loop(l)
        outer |= {m for m in lj.mus.values() if m is not None}
    deps = set()
    roots = [t for t in (tr.term(p.kw.get("n_samples")), tr.term(p.kw.get("timeout")), p.li.cond) if isinstance(t, T)]
    roots += [b for b in p.li.breaks if isinstance(b, T)]
    m0 = {m: (l, p.li.init.get(l)) for l, m in p.li.mus.items() if m is not None}
    work = list(roots)
    seen = set()
    bad = []
    while work:
        t = work.pop()
        for s in subterms(t):
            if s in m0 and s not in seen:
                seen.add(s)
                l, i0 = m0[s]
                if isinstance(i0, T):
                    for y in subterms(i0):
                        if y in outer or y.op == "loopout":
                            bad.append((l, y))
                stp = p.li.step.get(l)
                if isinstance(stp, T):
                    work.append(stp)
            elif s in outer:
                bad.append((None, s))
    if bad:
        for l, y in bad[:2]:
            rep.bad("%s:start:%s" % (k, l[-1] if l else "value"), "a repetition starts sampling with %s of the previous one" % (l[-1] if l else show(y)[:60]), p.rep.where)
    else:
        rep.ok(k + ":start", "the request size, the samples collected and the time spent start afresh (%d loop variables)" % len(seen), p.rep.where)


# ------------------------------------------------------------------ C46
def C46(rep):
    rep.rule = ("the text each method is built from is assembled symbolically and parsed: space_min, space_max and dims are the evaluated "
                "target's lower support bound, upper support bound and dimension; every configured parameter appears with its value; the "
                "method's name and debug flag are set to the configured ones before it samples")
    rep.assumptions += [MORE]
    for tr in traces(rep, LISTS[1:2]):
        c46(rep, tr)


def template(t):
    """(text with names for the inserted values, [(term, spec)])"""
    out, vals = [], []

    def go(x):
        if x.op == "strcat":
            for a in x.args:
                go(a)
        elif x.op == "const" and isinstance(x.args[1], str):
            out.append(x.args[1])
        elif x.op == "fmt":
            out.append(" _P%d_ " % len(vals))
            vals.append((x.args[0], x.args[1]))
        else:
            out.append(" _P%d_ " % len(vals))
            vals.append((x, "%s"))
    go(t)
    return "".join(out), vals


def bound_of(t):
    """(which, target) when t is text or array of a support bound"""
    while isinstance(t, T) and t.op == "ext" and t.args and isinstance(t.args[0], (str, T)):
        n = t.args[0] if isinstance(t.args[0], str) else str(t.args[0].args[-1])
        if n in ("array2string", "array", "asarray", "repr", "str", ".tolist", "tolist", "array_str", "array_repr", "list") and len(t.args) > 1:
            t = t.args[1]
            continue
        if n == "call" and isinstance(t.args[1], T) and t.args[1].op == "ext" and str(t.args[1].args[0]).strip("'") in (".tolist", ".copy", ".astype"):
            t = t.args[1].args[1]
            continue
        if n == "getitem" and len(t.args) == 3 and is_num(t.args[2]) and isinstance(t.args[1], T) and t.args[1].op == "ext" and t.args[1].args[0] == "call" \
                and isinstance(t.args[1].args[1], T) and t.args[1].args[1].args[0] == ".support":
            return numval(t.args[2]), who(t.args[1].args[1].args[1], "TARGET")
        if n in (".domain_min", ".domain_max"):
            return (0 if n == ".domain_min" else 1), who(t.args[1], "TARGET")
        break
    if isinstance(t, T) and t.op == "index" and is_num(t.args[1]) and t.args[0].op == "ext" and t.args[0].args[0] == "call" \
            and isinstance(t.args[0].args[1], T) and t.args[0].args[1].args[0] == ".support":
        return numval(t.args[1]), who(t.args[0].args[1].args[1], "TARGET")
    return None


def numval(t):
    for v in (0, 1, -1, -2, 2):
        if t is num(v):
            return v % 2 if v in (0, 1, -1, -2) else v
    return None


def c46(rep, tr):
    w = "CBenchmark.load_methods"
    made = {}
    prev = 0
    for i, e in enumerate(tr.evs):
        if e.kind == "evalcode":
            txt, vals = template(e.data["code"])
            ty = [m for t, _ in vals for m in [re.match(r"m(\d+)\.type$", str(t.args[0])) if t.op == "sym" else None] if m]
            if ty:
                made.setdefault(int(ty[0].group(1)), []).append((i, e, txt, vals))
    for p in tr.pairs:
        if p.method is None or p.target is None:
            rep.unsure("pair", "unknown method or target", p.ev.where)
            continue
        j, ti = int(p.method[6:]), int(p.target[6:])
        k = p.name
        mine = [x for x in made.get(j, []) if x[0] < p.pos]
        if not mine:
            rep.unsure(k + ":built", "how the method is built is not known", w)
            continue
        i, e, txt, vals = mine[-1]
        try:
            tree = ast.parse(txt.strip(), mode="eval").body
        except SyntaxError as ex:
            rep.bad(k + ":text", "the text the method is built from is no expression: %s" % txt[:200], e.where)
            continue

        def val(n):
            """the inserted value an expression stands for"""
            if isinstance(n, ast.Name) and re.match(r"_P\d+_$", n.id):
                return vals[int(n.id[2:-1])][0]
            if isinstance(n, ast.Call) and n.args and ast.unparse(n.func) in ("np.array", "numpy.array", "np.asarray", "t_tensor", "list", "int", "float"):
                return val(n.args[0])
            if isinstance(n, ast.List) and len(n.elts) == 1:
                return val(n.elts[0])
            return None
        ok = isinstance(tree, ast.Call) and isinstance(tree.func, ast.Name) and val(tree.func) is S_("m%d.type" % j)
        (rep.ok if ok else rep.unsure)(k + ":class", "an object of the configured class is built" if ok else "not a call of the configured class", e.where)
        d = None
        if isinstance(tree, ast.Call):
            for a in list(tree.args) + [x.value for x in tree.keywords]:
                if isinstance(a, ast.Dict):
                    d = a
        if d is None:
            rep.unsure(k + ":params", "the parameters are not a literal dictionary", e.where)
            continue
        got = {}
        for kn, vn in zip(d.keys, d.values):
            kk = kn.value if isinstance(kn, ast.Constant) else vals[int(kn.id[2:-1])][0].args[1] if isinstance(kn, ast.Name) and re.match(r"_P\d+_$", kn.id) \
                and vals[int(kn.id[2:-1])][0].op == "const" else None
            if kk is not None:
                got[str(kk).strip()] = vn
        for nm, which in (("space_min", 0), ("space_max", 1)):
            if nm not in got:
                rep.bad("%s:%s" % (k, nm), "%s is not given to the method" % nm, e.where)
                continue
            v = val(got[nm])
            b = bound_of(v) if v is not None else None
            if b is None:
                rep.unsure("%s:%s" % (k, nm), "%s is %s" % (nm, show(v)[:100] if v is not None else ast.unparse(got[nm])[:80]), e.where)
            elif b == (which, "TARGET%d" % ti):
                rep.ok("%s:%s" % (k, nm), "%s is the target's own %s support bound" % (nm, ("lower", "upper")[which]), e.where)
            else:
                rep.bad("%s:%s" % (k, nm), "%s is the %s support bound of %s, evaluated on TARGET%d" % (nm, {0: "lower", 1: "upper"}.get(b[0], b[0]), b[1], ti), e.where)
        if "dims" not in got:
            rep.bad(k + ":dims", "dims is not given to the method", e.where)
        else:
            v = val(got["dims"])
            want = mk("ext", ".dims", sym("TARGET%d" % ti, kind="obj"))
            if v is None:
                rep.unsure(k + ":dims", "dims is %s" % ast.unparse(got["dims"])[:80], e.where)
            elif v is want or v.op == "ext" and v.args[0] == ".dims" and who(v.args[1], "TARGET") == "TARGET%d" % ti:
                rep.ok(k + ":dims", "dims is the target's dimension", e.where)
            elif v.op == "ext" and v.args[0] == ".dims" or is_num(v):
                rep.bad(k + ":dims", "dims is %s, evaluated on TARGET%d" % (show(v)[:80], ti), e.where)
            else:
                rep.unsure(k + ":dims", "dims is %s" % show(v)[:80], e.where)
        for nm in ("p%d" % j, "r%d" % j):
            want = S_("m%d.%s" % (j, nm[0]))
            if nm not in got:
                rep.bad("%s:parameter %s" % (k, "first" if nm[0] == "p" else "second"), "a configured parameter is not given to the method", e.where)
            else:
                v = val(got[nm])
                if v is want:
                    rep.ok("%s:parameter %s" % (k, "first" if nm[0] == "p" else "second"), "a configured parameter is given with its value", e.where)
                elif v is not None and v.op == "sym":
                    rep.bad("%s:parameter %s" % (k, "first" if nm[0] == "p" else "second"), "a configured parameter is given the value %s" % show(v)[:80], e.where)
                else:
                    rep.unsure("%s:parameter %s" % (k, "first" if nm[0] == "p" else "second"), "a parameter's value is not known", e.where)
        for at, want in (("name", S_("m%d.name" % j)), ("debug", B_("m%d.debug" % j))):
            sets = [x for x in tr.evs[:p.pos] if x.kind == "extset" and x.data["attr"] == at and xt(x.data["recv"]) is xt(p.ev.data["recv"])]
            v = tr.term(sets[-1].data["val"]) if sets else None
            if not sets:
                rep.bad("%s:%s" % (k, at), "the method's %s is never set" % at, w)
            else:
                same(rep, "%s:%s" % (k, at), v, want, "the method's %s" % at, sets[-1].where)


# ------------------------------------------------------------------ C40
def C40(rep):
    rep.rule = ("the header text and the row text are assembled symbolically for each list of metrics and split at blanks; they must have the "
                "same number of columns and each row value must be what its column names (the value a metric of that class computed in "
                "this iteration, the method's or target's own name, counter, sample count); the header is written once, first, to an emptied "
                "file, rows are appended to it")
    rep.assumptions += [MORE, "padding to a width wider than the precision needs separates a number from the previous one"]
    for tr in traces(rep, LISTS + [["KLD", "MEM", "T", "JSD"], ["EVMSE"]]):
        c40(rep, tr)
    tr = rep.guard("trace[NESS]", trace, ["NESS", "JSD", "T"])
    if tr is not None:
        c40(rep, tr)


def columns(t):
    """row text -> list of columns, each a list of pieces (str | (term, spec)); None when not decomposable"""
    cols = []
    cur = []

    def flush():
        nonlocal cur
        if cur:
            cols.append(cur)
        cur = []

    def go(x):
        nonlocal cur
        if x.op == "strcat":
            for a in x.args:
                go(a)
        elif x.op == "const" and isinstance(x.args[1], str):
            for piece in re.split(r"(\s+)", x.args[1]):
                if not piece:
                    continue
                if piece.isspace():
                    flush()
                else:
                    cur.append(piece)
        elif x.op == "fmt":
            m = re.match(r"[%{]:?\s*([<>^]?)\s*([-+ 0#]*)(\d*)(?:\.(\d+))?([a-zA-Z]?)\}?$", str(x.args[1]).replace("{:", "{"))
            if m and m.group(3) and int(m.group(3)) - int(m.group(4) or 0) - 1 >= 3 and "0" not in m.group(2) and "-" not in m.group(2) and m.group(1) in ("", ">") \
                    and m.group(5) in ("f", "e", "g", "d", "F"):
                flush()
            cur.append((x.args[0], x.args[1]))
        else:
            cur.append((x, "%s"))
    go(t)
    flush()
    return cols


def meaning(t, p):
    """the name of the column a value belongs to, or None"""
    if t.op == "sym":
        m = re.match(r"val:(\w+):\d+$", str(t.args[0]))
        if m:
            for k, v in CLASS_OF.items():
                if v == m.group(1):
                    return k
        m = re.match(r"([tm])(\d+)\.name$", str(t.args[0]))
        if m:
            return {"t": "target_d", "m": "method"}[m.group(1)] if m.group(2) == (p.target if m.group(1) == "t" else p.method)[6:] else "another's name"
    if t is sub_len(p):
        return "output_samples"
    if settled(t) and any(x is sub_len(p) for x in subterms(t)) and t.op not in ("ite", "fmt") and not equal(t, sub_len(p)):
        return "another number than the samples obtained"
    if t.op == "ext" and isinstance(t.args[0], str):
        n = t.args[0]
        if n == "call" and isinstance(t.args[1], T) and t.args[1].op == "ext":
            o = t.args[1]
            if o.args[0] in (".get_NESS", ".get_acceptance_rate"):
                return {".get_NESS": "NESS", ".get_acceptance_rate": "accept_rate"}[o.args[0]] if o.args[1] is xt(p.ev.data["recv"]) else "another's " + o.args[0][5:]
        if n.startswith(".") and len(t.args) > 1:
            me, tg = t.args[1] is xt(p.ev.data["recv"]), t.args[1] is xt(p.kw["target_d"])
            tab = {(".dims", "t"): "dims", (".dims", "m"): "dims", (".name", "m"): "method", (".name", "t"): "target_d",
                   (".num_proposal_samples", "m"): "proposal_samples", (".num_proposal_evals", "m"): "proposal_evals", (".num_target_evals", "m"): "target_evals"}
            if me or tg:
                return tab.get((n, "m" if me else "t"))
            if who(t.args[1], "METHOD") or who(t.args[1], "TARGET"):
                return "another's " + n[1:]
    return None


def c40(rep, tr):
    ns = "NESS" in tr.metrics
    k = "columns[%s]" % ("NESS-listed" if ns else ",".join(tr.metrics))
    inside = {i for p in tr.pairs for i, _ in p.inside}
    start = min(p.pos for p in tr.pairs)
    isf = lambda e: e.kind == "extmeth" and e.data["name"] == "write" and isinstance(xt(e.data["recv"]), T) and xt(e.data["recv"]).op == "ext" \
        and xt(e.data["recv"]).args[0] == "file"
    heads = [(i, e) for i, e in enumerate(tr.evs) if isf(e) and i not in inside]
    if len(heads) != 1 or heads[0][0] > start:
        if len(heads) > 1 and all(not e.loops and not e.pc for _, e in heads):
            rep.bad(k + ":header", "the header is written %d times" % len(heads), "CBenchmark.run")
        else:
            rep.unsure(k + ":header", "%d writes outside the sampling loops" % len(heads), "CBenchmark.run")
        return
    he = heads[0][1]
    ht = tr.term(he.data["args"][0])
    if not (isinstance(ht, T) and ht.op == "const" and isinstance(ht.args[1], str)):
        rep.unsure(k + ":header", "the header is %s" % (show(ht)[:100] if isinstance(ht, T) else "?"), he.where)
        return
    text = ht.args[1]
    head = text.split()
    if not text.endswith("\n") or text.count("\n") != 1:
        rep.bad(k + ":header", "the header is not one line", he.where)
    else:
        rep.ok(k + ":header", "one header line with %d columns, before any row" % len(head), he.where)
    hf = xt(he.data["recv"])
    file_mode(rep, k + ":header file", hf, "w", he.where)
    for i, e in enumerate(tr.evs):
        if e.kind == "open" and i > heads[0][0] and len(e.data["args"]) > 0 and tr.term(e.data["args"][0]) is S_("OUTFILE"):
            mode = tr.term(e.data["args"][1]) if len(e.data["args"]) > 1 else tr.term(e.data["kw"].get("mode"))
            if isinstance(mode, T) and mode.op == "const" and "w" in str(mode.args[1]):
                rep.bad(k + ":emptied", "the results file is emptied after the header was written", e.where)
    miss = [m for m in tr.metrics if head.count(m) != 1]
    for c in sorted((FIXED | set(tr.metrics)) - set(head)):
        rep.bad("%s:column %s" % (k, c), "the header has no column %s" % c, he.where)
    for p in tr.pairs:
        rows = rows_of(tr, p)
        if len(rows) != 1:
            rep.unsure("%s|%s:row" % (k, p.name), "%d writes in an iteration" % len(rows), W_)
            continue
        e = rows[0][1]
        rt = tr.term(e.data["args"][0])
        kk = "%s|%s" % (k, p.name)
        if not isinstance(rt, T) or not settled(rt):
            rep.unsure(kk + ":row", "the row is not known", e.where)
            continue
        file_mode(rep, kk + ":row file", xt(e.data["recv"]), "a", e.where)
        cols = columns(rt)
        parts = rt.args if rt.op == "strcat" else [rt]
        if parts[-1].op == "const" and str(parts[-1].args[1]).endswith("\n") and sum(str(a.args[1]).count("\n") for a in parts if a.op == "const") == 1:
            rep.ok(kk + ":line", "a row is one line", e.where)
        else:
            rep.bad(kk + ":line", "a row is not one line", e.where)
        if len(cols) != len(head):
            key = k if ns else kk + ":count"
            rep.bad(key, "the header has %d columns (%s), a row has %d values" % (len(head), " ".join(head), len(cols)), e.where)
            if ns:
                return
            continue
        rep.ok(kk + ":count", "%d columns, %d values" % (len(head), len(cols)), e.where)
        for h, c in zip(head, cols):
            if len(c) != 1 or isinstance(c[0], str):
                rep.unsure("%s:%s" % (kk, h), "a value of several parts", e.where)
                continue
            m = meaning(c[0][0], p)
            if m is None:
                rep.unsure("%s:%s" % (kk, h), "column %s holds %s" % (h, show(c[0][0])[:100]), e.where)
            elif m == h:
                rep.ok("%s:%s" % (kk, h), "column %s holds the %s" % (h, m), e.where)
            else:
                rep.bad("%s:%s" % (kk, h), "column %s holds %s" % (h, m), e.where)


def file_mode(rep, k, f, want, where):
    """f is ext('file', key, name, mode)"""
    a = [x for x in f.args[1:] if isinstance(x, T) and x.op != "key"]
    if not a or not settled(f):
        rep.unsure(k, "which file is written is not known", where)
        return
    if a[0] is not S_("OUTFILE"):
        rep.bad(k, "written to %s" % show(a[0])[:80], where)
        return
    mode = None
    for x in a[1:]:
        for s in subterms(x):
            if s.op == "const" and isinstance(s.args[1], str) and re.match(r"[rwaxbt+]+$", s.args[1]):
                mode = s.args[1]
    if mode is None:
        rep.unsure(k, "the mode the file is opened with is not known", where)
    elif want in mode:
        rep.ok(k, "written to the given file, opened with '%s'" % mode, where)
    else:
        rep.bad(k, "the file is opened with '%s'" % mode, where)


# ------------------------------------------------------------------ C41
OTHER_SOURCES = re.compile(
    r"^(random\.(?!Random$)\w+|random\.Random|secrets\.\w+|os\.urandom|os\.getrandom|uuid\.uuid[14]|"
    r"numpy\.random\.(default_rng|RandomState|Generator|SeedSequence|PCG64|PCG64DXSM|MT19937|Philox|SFC64|seed|set_state|BitGenerator)|"
    r"torch\.(rand\w*|normal|multinomial|bernoulli|manual_seed)|numpy\.random\.mtrand\.\w+|scipy\.stats\.qmc\.\w+)$")


def C41(rep):
    rep.rule = ("in the recorded run, between two pairs of method and target the generator is seeded with the configured value under a "
                "condition that holds for seeds 0 and 5 and fails for -1, before the sampler is reset or samples, and never inside the "
                "repetitions; the settings' seed is applied before anything is built; outside the benchmark, no library code refers to "
                "another source of randomness or re-seeds the shared generator")
    rep.assumptions += [MORE, "numpy's global generator is deterministic given its seed; scipy distributions draw from it unless told otherwise"]
    for tr in traces(rep, LISTS[1:2]):
        seeds = [(i, e) for i, e in enumerate(tr.evs) if e.kind == "seed"]
        for i, e in seeds:
            on, off = [at_rate(tr, v, e.pc) for v in (0, 5)], at_rate(tr, -1, e.pc)
            if off is True:
                rep.bad("negative:" + "/".join(e.stack[-1:]), "the generator is also seeded when the configured seed is negative", e.where)
            elif off is False:
                rep.ok("negative:" + "/".join(e.stack[-1:]), "a negative seed leaves the generator alone", e.where)
            else:
                rep.unsure("negative", "when the generator is seeded is not known", e.where)
        last = -1
        for p in tr.pairs:
            lo = p.ev.loops[0] if p.ev.loops else None
            mine = [(i, e) for i, e in seeds if last < i < p.pos]
            rep_seeds = [e for i, e in mine if p.rep is not None and p.rep.lid in e.loops]
            good = []
            for i, e in mine:
                if e in rep_seeds:
                    continue
                v = tr.term(e.data["val"])
                if v is N("c.rseed", int=True) and at_rate(tr, 0, e.pc) is True and at_rate(tr, 5, e.pc) is True and not e.loops:
                    good.append(i)
            # the last draw before: the sampler's own reset and call inside the experiment
            uses = [i for i, e in enumerate(tr.evs) if last < i <= p.pos and e.kind == "extmeth" and xt(e.data["recv"]) is xt(p.ev.data["recv"])
                    and (e.data["name"] == "importance_sample" or p.rep is not None and p.rep.lid in e.loops)]
            if rep_seeds and all(at_rate(tr, 0, e.pc) is True for e in rep_seeds):
                rep.bad("pair:%s:repeats" % p.name, "every repetition is seeded alike and repeats the first", rep_seeds[0].where)
            if not good:
                if mine and any(not settled(tr.term(e.data["val"])) or at_rate(tr, 5, e.pc) is None for _, e in mine):
                    rep.unsure("pair:" + p.name, "how the generator is seeded is not known", mine[0][1].where)
                elif mine and not rep_seeds:
                    rep.bad("pair:" + p.name, "the generator is not seeded with the configured seed for every non-negative one (it gets %s if %s)" % (
                        show(tr.term(mine[0][1].data["val"]))[:60], " and ".join(show(c)[:60] for c in mine[0][1].pc)), mine[0][1].where)
                elif not rep_seeds:
                    rep.bad("pair:" + p.name, "the generator is not seeded before %s" % p.name, W_)
            elif uses and min(good) > min(uses):
                rep.bad("pair:" + p.name, "the sampler is used before the generator is seeded", tr.evs[min(uses)].where)
            else:
                rep.ok("pair:" + p.name, "seeded with the configured seed before the experiment", tr.evs[good[0]].where)
            last = max(i for i, _ in p.inside) if p.inside else p.pos
        built = [i for i, e in enumerate(tr.evs) if e.kind == "evalcode"]
        first = [i for i, e in seeds if tr.term(e.data["val"]) is N("c.rseed", int=True) and at_rate(tr, 0, e.pc) is True]
        if built and first and min(first) < min(built):
            rep.ok("first", "the generator is seeded before anything is built", tr.evs[min(first)].where)
        elif built and first:
            rep.bad("first", "targets are built before the generator is seeded", tr.evs[min(first)].where)
        else:
            rep.unsure("first", "no seeding is found", "CBenchmark.run")
    sources(rep)


def sources(rep):
    P = prog()
    n = 0
    for m in P.mods.values():
        rel = m.rel
        if "/benchmark/" in rel or rel.startswith("test"):
            continue
        imp = {}
        for nd in ast.walk(m.tree):
            if isinstance(nd, ast.Import):
                for a in nd.names:
                    imp[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(nd, ast.ImportFrom) and nd.level == 0 and nd.module:
                for a in nd.names:
                    imp[a.asname or a.name] = "%s.%s" % (nd.module, a.name)

        def dotted(x):
            if isinstance(x, ast.Name):
                return imp.get(x.id)
            if isinstance(x, ast.Attribute):
                b = dotted(x.value)
                return "%s.%s" % (b, x.attr) if b else None
            return None
        used = 0
        spans = [(f.lineno, f.end_lineno, f.name) for f in ast.walk(m.tree) if isinstance(f, (ast.FunctionDef, ast.ClassDef))]
        for nd in ast.walk(m.tree):
            if isinstance(nd, (ast.Attribute, ast.Name)) and isinstance(nd.ctx, ast.Load):
                d = dotted(nd)
                if d is None:
                    continue
                if d.startswith("numpy.random."):
                    used += 1
                if OTHER_SOURCES.match(d):
                    inn = [s[2] for s in sorted(spans) if s[0] <= nd.lineno <= s[1]]
                    rep.bad("source:%s:%s:%s" % (rel, ".".join(inn), d), "%s is not the seeded generator" % d, "%s:%d" % (rel, nd.lineno))
            if isinstance(nd, ast.keyword) and nd.arg in ("random_state", "seed", "rng") and not (isinstance(nd.value, ast.Constant) and nd.value.value is None):
                inn = [s[2] for s in sorted(spans) if s[0] <= nd.value.lineno <= s[1]]
                rep.unsure("source:%s:%s:%s" % (rel, ".".join(inn), nd.arg), "a generator of its own may be given", "%s:%d" % (rel, nd.value.lineno))
        n += 1
        rep.ok("source:%s" % rel, "%d uses of the shared generator, no other source" % used, rel)
    if not n:
        raise Anchor("no library modules")


# ------------------------------------------------------------------ C05 (benchmark)
def c05_bench(rep):
    """the experiment's time limit"""
    tr = rep.guard("benchmark:trace", trace, ["JSD", "T"])
    if tr is None:
        return
    k = "CBenchmark.evaluate_method:time-limit"
    for p in tr.pairs:
        if p.li is None:
            continue
        G = [p.li.cond] + list(p.li.breaks)
        t = tr.term(p.kw.get("timeout"))
        m1 = {m: p.li.step.get(l) for l, m in p.li.mus.items() if m is not None and isinstance(p.li.step.get(l), T)}
        if t is None:
            rep.bad(k, "the sampling call gets no time limit", p.ev.where)
            return
        leaves = any(isinstance(g, T) and timed(subst(g, m1)) for g in G)
        shrinks = timed(subst(t, m1)) or timed(t)
        if not leaves or not shrinks:
            rep.bad(k, "the experiment's time limit never ends it: the time spent is not measured (%s%s)" % (
                "no exit of the loop depends on the clock" if not leaves else "", "; each call gets the whole limit" if not shrinks else ""), p.li.where)
            return
    rep.ok(k, "the experiment's time limit shrinks with the clock and ends the loop", W_)


CHECKS = {"C40": C40, "C41": C41, "C42": C42, "C43": C43, "C45": C45, "C46": C46, "C47": C47}
