"""Obligations, verdicts, known findings, evidence."""
import json
import os
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")

PROVED, REFUTED, UNDECIDED = "proved", "refuted", "undecided"


class Anchor(Exception):
    """what a check is about is not in the code any more"""


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.obs = []
        self.functions = set()
        self.notes = []
        self.rule = ""
        self.assumptions = []
        self.extra = {}
        self._keys = set()

    def ob(self, key, verdict, msg="", where="", detail=""):
        """one decided obligation; key names rule and construct, never a line"""
        k = key
        n = 2
        while k in self._keys:
            k = "%s#%d" % (key, n)
            n += 1
        self._keys.add(k)
        self.obs.append({"key": k, "verdict": verdict, "msg": msg, "where": where, "detail": detail})
        return verdict

    def ok(self, key, msg="", where=""):
        return self.ob(key, PROVED, msg, where)

    def bad(self, key, msg, where="", detail=""):
        return self.ob(key, REFUTED, msg, where, detail)

    def unsure(self, key, msg, where="", detail=""):
        return self.ob(key, UNDECIDED, msg, where, detail)

    def guard(self, key, fn, *a, **k):
        """run an analysis step; an internal error leaves the obligation undecided"""
        try:
            return fn(*a, **k)
        except Anchor:
            raise
        except Exception as e:
            tb = traceback.format_exc().strip().splitlines()
            self.unsure(key, "analysis failed: %s: %s" % (type(e).__name__, e), detail=" | ".join(tb[-6:]))
            return None

    # ---------------------------------------------------------------- output
    def known(self):
        out = {}
        try:
            with open(KNOWN) as f:
                for l in f:
                    l = l.strip()
                    if l.startswith("finding:"):
                        # finding: property=C20 key=<key> -- text
                        head, _, text = l.partition(" -- ")
                        d = dict(x.split("=", 1) for x in head.split()[1:])
                        if d.get("property") == self.prop:
                            out[d["key"]] = text
        except FileNotFoundError:
            pass
        return out

    def finish(self):
        known = self.known()
        viol = []
        seen_known = []
        for o in self.obs:
            if o["verdict"] != REFUTED:
                continue
            if o["key"] in known:
                seen_known.append(o)
            else:
                viol.append(o)
        for o in seen_known:
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.prop, known[o["key"]], o["key"]))
        n = {v: sum(1 for o in self.obs if o["verdict"] == v) for v in (PROVED, REFUTED, UNDECIDED)}
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other",
            "wall_s": round(time.time() - self.t0, 3), "violations": len(viol),
            "coverage": {
                "explanation": "static analysis of /repo's current source; rule: " + self.rule,
                "obligations": len(self.obs), "discharged": n[PROVED], "undecided": n[UNDECIDED],
                "refuted": n[REFUTED], "known_findings": len(seen_known),
                "functions_analysed": len(self.functions), "functions": sorted(self.functions)[:400],
                "obligation_list": [{k: v for k, v in o.items() if v} for o in self.obs][:1500],
                **self.extra,
            },
            "assumptions": self.assumptions,
        }
        evd = os.environ.get("AIS_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(evd, exist_ok=True)
        path = os.path.join(evd, self.prop + ".json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print("%s: %d obligations, %d discharged, %d undecided, %d refuted (%d known) in %.1fs; %d functions analysed" % (
            self.prop, len(self.obs), n[PROVED], n[UNDECIDED], n[REFUTED], len(seen_known), time.time() - self.t0,
            len(self.functions)))
        if os.environ.get("AIS_VERBOSE"):
            for o in self.obs:
                print("  %-9s %s | %s | %s %s" % (o["verdict"], o["key"], o["msg"], o["where"], o["detail"][:300]))
        if viol:
            rp = os.path.join(evd, self.prop + ".violation.txt")
            with open(rp, "w") as f:
                for o in viol:
                    f.write("%s\n  rule: %s\n  where: %s\n  %s\n  %s\n\n" % (o["key"], self.rule, o["where"], o["msg"], o["detail"]))
            for o in viol[:20]:
                print("  %s: %s [%s] %s" % (o["where"], o["msg"], o["key"], o["detail"][:400]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        return 0
