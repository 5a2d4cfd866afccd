"""Facts about the installed dependencies: which dotted names exist, and their signatures.

Only the dependencies are inspected (never the library under analysis), with the interpreter the library is built for."""
import json
import os
import subprocess
import sys

SCRIPT = r'''
import sys, json, importlib, inspect, os
os.environ.setdefault("MPLBACKEND", "Agg")
import warnings; warnings.simplefilter("ignore")
req = json.load(sys.stdin)
out = {"names": {}, "sigs": {}, "missing": [], "attrs": [], "star": {}}
mods = {}
def imp(n):
    if n not in mods:
        try:
            mods[n] = importlib.import_module(n)
        except BaseException as e:
            mods[n] = None
    return mods[n]
def resolve(name):
    parts = name.split(".")
    top = imp(parts[0])
    if top is None:
        return "missing", None
    for k in range(len(parts), 0, -1):
        try:
            o = importlib.import_module(".".join(parts[:k]))
        except BaseException:
            continue
        ok = True
        for p in parts[k:]:
            try:
                o = getattr(o, p)
            except BaseException:
                ok = False
                break
        return ("yes", o) if ok else ("no", None)
    return "no", None
def docsig(o, name):
    """the signature a compiled function states on top of its docstring"""
    import ast
    doc = (getattr(o, "__doc__", None) or "").lstrip()
    if not doc.startswith(name + "(") or "[" in doc.split(")")[0]:
        return None
    depth = 0
    for i, ch in enumerate(doc):
        depth += (ch == "(") - (ch == ")")
        if ch == ")" and depth == 0:
            break
    head = doc[:i + 1]
    if "..." in head or (doc[i + 1:i + 200].lstrip().startswith(name + "(")):
        return None
    try:
        a = ast.parse("def %s: pass" % head).body[0].args
    except SyntaxError:
        return None
    ps = a.posonlyargs + a.args
    r = [(p.arg, "POSITIONAL_OR_KEYWORD", True) for p in ps]
    if a.vararg:
        r.append((a.vararg.arg, "VAR_POSITIONAL", True))
    r += [(p.arg, "KEYWORD_ONLY", True) for p in a.kwonlyargs]
    if a.kwarg:
        r.append((a.kwarg.arg, "VAR_KEYWORD", True))
    return r
for n in req["names"]:
    s, o = resolve(n)
    out["names"][n] = s
    if s == "yes" and callable(o):
        try:
            sg = inspect.signature(o)
            out["sigs"][n] = [(p.name, str(p.kind), p.default is not inspect._empty) for p in sg.parameters.values()]
        except (ValueError, TypeError):
            sg = docsig(o, n.split(".")[-1])
            if sg is not None:
                out["sigs"][n] = sg
for n in req["mods"]:
    if imp(n.split(".")[0]) is None:
        out["missing"].append(n)
for n in req["star"]:
    m = imp(n)
    if m is not None:
        out["star"][n] = list(getattr(m, "__all__", [x for x in dir(m) if not x.startswith("_")]))
types = [list, dict, str, tuple, set, int, float, bytes, complex, BaseException, type, object, property, staticmethod, classmethod, type(lambda: 0)]
names = set()
for t in types:
    names |= set(dir(t))
import io, threading, queue
names |= set(dir(io.TextIOWrapper)) | set(dir(threading.Thread)) | set(dir(queue.Queue))
for modn in ["numpy", "numpy.random", "matplotlib.axes", "matplotlib.figure", "matplotlib.pyplot", "matplotlib.collections",
             "matplotlib.patches", "matplotlib.lines", "matplotlib.backends.backend_agg", "sklearn.cluster", "scipy.spatial", "scipy.stats",
             "cProfile", "pstats", "pathlib", "yaml", "time", "os", "subprocess", "mpl_toolkits.mplot3d", "pandas", "guppy"]:
    m = None
    try:
        m = importlib.import_module(modn)
    except BaseException:
        continue
    names |= set(dir(m))
    for x in dir(m):
        try:
            o = getattr(m, x)
            if inspect.isclass(o):
                names |= set(dir(o))
        except BaseException:
            pass
out["attrs"] = sorted(names)
json.dump(out, sys.stdout)
'''


def query(names, mods, star):
    py = "/opt/venv/bin/python"
    if not os.path.exists(py):
        py = sys.executable
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH",)}
    env.update(MPLBACKEND="Agg", MPLCONFIGDIR="/tmp", PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([py, "-c", SCRIPT], input=json.dumps({"names": sorted(names), "mods": sorted(mods), "star": sorted(star)}),
                       capture_output=True, text=True, env=env, cwd="/", timeout=300)
    return json.loads(r.stdout)
