"""python3 -m ais.check <property> --tier quick|thorough"""
import argparse
import importlib
import os
import signal
import sys

MODULES = ["lint", "ifaces", "config", "bench", "dists", "metricsx", "samplers", "trees"]


def registry():
    reg = {}
    for m in MODULES:
        try:
            mod = importlib.import_module("ais.checks." + m)
        except ModuleNotFoundError as e:
            if ("ais.checks." + m) in str(e):
                continue
            raise
        reg.update(mod.CHECKS)
    return reg


def main():
    from .report import Report, Anchor
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    sys.setrecursionlimit(30000)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = Report(a.prop, a.tier, seed)

    def alarm(_s, _f):
        raise TimeoutError("analysis time limit")
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(780)
    fn = registry()[a.prop]
    try:
        fn(rep)
    except Anchor as e:
        print("ANALYSIS BROKEN: property=%s %s" % (a.prop, e))
        return 2
    except SyntaxError as e:
        print("ANALYSIS BROKEN: the source does not parse: %s" % e)
        return 2
    except TimeoutError as e:
        rep.unsure("time limit", str(e))
    except Exception as e:
        # what could not be analysed is not decided; what was decided before stands
        import traceback
        tb = traceback.format_exc()
        if os.environ.get("AIS_VERBOSE"):
            print(tb)
        rep.unsure("analysis", "%s: %s" % (type(e).__name__, e), detail=" | ".join(tb.strip().splitlines()[-6:]))
    signal.alarm(0)
    return rep.finish()


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    # analysis recurses deeply: needs a big stack; signals go to the main thread
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except Exception:
        pass
    if os.environ.get("AIS_CHILD") != "1":
        os.environ["AIS_CHILD"] = "1"
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
        os.execv(sys.executable, [sys.executable, "-W", "ignore", "-m", "ais.check"] + sys.argv[1:])
    sys.exit(main())
