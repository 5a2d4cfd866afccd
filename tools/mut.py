"""Self-test: apply textual mutants (and behaviour-preserving rewrites) to scratch copies and run checks on them.

usage: mut.py [-p PROP,PROP] [-k NAME]   reads tools/mutants.py: M = [(name, props, file, old, new)], H = same with props that must
stay quiet.  Never touches /repo."""
import os, warnings, sys, shutil, subprocess, importlib.util
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location("mutants", os.path.join(H, "mutants.py"))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
args = sys.argv[1:]
props = set(args[args.index("-p") + 1].split(",")) if "-p" in args else None
pat = args[args.index("-k") + 1] if "-k" in args else ""


def one(job):
    kind, (name, ps, file, old, new) = job
    d = "/tmp/mut/" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/mut", exist_ok=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "*.pyc"))
    out = []
    try:
        f = os.path.join(d, file)
        s = open(f).read()
        pairs = [(old, new)] if isinstance(old, str) else list(zip(old, new))
        for a, b in pairs:
            if s.count(a) < 1:
                return "%-34s ANCHOR MISSING %r" % (name, a[:50])
            s = s.replace(a, b, 1)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f.endswith(".py") and compile(s, f, "exec")
        open(f, "w").write(s)
        for p in ps.split(","):
            if props and p not in props:
                continue
            e = dict(os.environ, AIS_REPO=d, AIS_VERBOSE="1", AIS_EVIDENCE="/tmp/mut/ev")
            r = subprocess.run(["python3-vt", "-W", "ignore", "-m", "ais.check", p, "--tier", "quick"], cwd=os.path.dirname(H), env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            want = 1 if kind == "M" else 0
            bad = [l for l in r.stdout.splitlines() if "refuted" in l][:2] + [l for l in r.stdout.splitlines() if "undecided" in l][-2:]
            ok = "ok  " if r.returncode == want else "MISS" if kind == "M" else "FALSE"
            out.append("%s %-34s %s rc=%d %s" % (ok, name, p, r.returncode, "" if ok == "ok  " and "-v" not in args else
                                                 "\n     ".join([""] + [x[:260] for x in bad])))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return "\n".join(out)


jobs = [("M", x) for x in m.M] + [("H", x) for x in getattr(m, "H", [])]
jobs = [j for j in jobs if pat in j[1][0] and (not props or props & set(j[1][1].split(",")))]
with ThreadPoolExecutor(7) as ex:
    for r in ex.map(one, jobs):
        if r:
            print(r, flush=True)
