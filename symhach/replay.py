"""Concrete replay of harness inputs against the unmodified hachoir sources.

usage: python3 -m symhach.replay CASES.json     (run in /verif)
CASES.json: one case, or {"cases": [...], "out": path}
case: {"module", "harness", "cfg", "inputs"}
"""
import importlib
import json
import os
import signal
import sys
import traceback

REPO = os.environ.get("HACHOIR_REPO", "/repo")


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


def run_case(case, known=(), timeout=20):
    from symhach.env import ConcreteEnv, ConcreteViolation, Skip
    mod = importlib.import_module(case["module"])
    h = {x.name: x for x in mod.HARNESSES}[case["harness"]]
    env = ConcreteEnv(case["cfg"], case["inputs"], known)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    res = {}
    try:
        h.fn(env)
        res["status"] = "ok"
    except ConcreteViolation as e:
        res["status"], res["label"] = "violated", e.label
    except Skip:
        res["status"] = "skip"
    except Hang:
        res["status"], res["label"] = "hang", "does not terminate within %d s" % timeout
    except Exception as e:
        res["status"] = "exception"
        res["label"] = "%s: %s" % (type(e).__name__, e)
        tb = traceback.extract_tb(e.__traceback__)
        res["where"] = ["%s:%d" % (f.filename, f.lineno) for f in tb[-3:]]
        res["in_repo"] = tb[-1].filename.startswith(REPO + "/") or \
            any(f.filename.startswith(REPO + "/") for f in tb)
    finally:
        signal.alarm(0)
    res["observed"] = env.observed
    res["reached"] = env.reached
    res["known"] = sorted(env.used_known)
    return res


def setup():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    from hachoir.core import log
    log.Log.newMessage = lambda self, *a, **k: None


def main():
    path = sys.argv[1]
    with open(path) as f:
        job = json.load(f)
    setup()
    if "cases" in job:
        out = []
        hangs = 0
        for c in job["cases"]:
            # a hang stands for the others
            out.append(run_case(c, job.get("known", ()), job.get("timeout", 20)) if hangs < 4 else
                       dict(status="not run", observed=[], reached=[], known=[]))
            hangs += out[-1]["status"] == "hang"
        with open(job["out"], "w") as f:
            json.dump(out, f)
        return 0
    res = run_case(job)
    print(json.dumps(res, indent=1))
    return 1 if res["status"] in ("violated", "exception", "hang") else 0


if __name__ == "__main__":
    sys.exit(main())
