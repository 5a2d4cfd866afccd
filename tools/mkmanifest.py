"""Rewrites MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(30000)
from ais.check import registry
TECH = {
 "lint": "whole-program name, attribute and call-signature resolution over the syntax tree",
 "ifaces": "class-hierarchy interface conformance and shared-mutable-state (aliasing) analysis",
 "config": "static resolution of configuration data against constructors (abstract interpretation)",
 "bench": "event-order (typestate) analysis over an abstract interpretation of the benchmark driver",
 "dists": "abstract interpretation to normalised symbolic value terms, compared with specification terms",
 "metricsx": "abstract interpretation to normalised symbolic value terms, compared with specification terms",
 "samplers": "abstract interpretation with loop summaries; dataflow facts on counters, lengths, alignment, guards",
 "trees": "abstract interpretation of tree operations on symbolic state; record-alignment and tiling terms",
}
NA = {
 "C60": "Convergence is a statement about random limits of adaptive estimators; no sound static argument over this source can bound it.",
 "C61": "Whether a density integrates to one is an analytic fact about real integrals, not decidable from the source by dataflow; the formula itself is covered by C21.",
 "C62": "Accuracy of clock and memory readings depends on the operating system and hardware at run time.",
 "C63": "Faithfulness of rendered plots depends on matplotlib's run-time rendering, outside what the source determines.",
}
NOTE = ("Static analysis of the current source on every run. An obligation is reported only when the analysis derives that it is "
        "violated (refuted); what the abstraction cannot decide is recorded in the evidence as undecided and stays quiet. "
        "Trusts the engine's model of the Python and numpy operations used, real arithmetic for floats, and the listed assumptions.")
EXTRA = {}
try:
    from tools.notes import EXTRA
except ImportError:
    pass
reg = registry()
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in reg:
        m = reg[i].__module__.split(".")[-1]
        checks.append({"property": i,
                       "quick_cmd": "python3-vt -m ais.check %s --tier quick" % i,
                       "thorough_cmd": "python3-vt -m ais.check %s --tier thorough" % i,
                       "technique": "static analysis: " + TECH[m], "level": "other",
                       "level_note": NOTE + (" " + EXTRA[i] if i in EXTRA else "")})
    else:
        na.append({"property": i, "reason": NA.get(i, "No check has been built for this property yet.")})
json.dump({"version": 1, "setup_cmd": "python3-vt -c \"import ais.check as c; print(sorted(c.registry()))\"",
           "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "na")
