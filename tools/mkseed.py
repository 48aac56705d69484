#!/usr/bin/env python3
"""mkseed.py [NAME...]: build /verif/seeded/NAME from tools/seeds_spec.py and
confirm each in a scratch copy: applies, tests pass, demo 0 -> nonzero.
mkseed.py --check [NAME...]: run the check of the property on each (scratch copy)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = []


def seed(name, prop, edits, needs, breaks, demo):
    SPEC.append(dict(name=name, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


exec(open(os.path.join(V, "tools", "seeds_spec.py")).read())


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    r = d + "/repo"
    subprocess.check_call(["cp", "-a", "/repo", r])
    subprocess.check_call(["git", "-C", r, "checkout", "-q", "--", "."])
    return d, r


def build(s):
    d, r = scratch()
    out = V + "/seeded/" + s["name"]
    try:
        os.makedirs(out, exist_ok=True)
        with open(out + "/demo.py", "w") as f:
            f.write(s["demo"].lstrip("\n"))
        with open(out + "/demo.sh", "w") as f:
            f.write('#!/bin/sh\n# exit 0: the property holds; run with cwd = the repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        with open(out + "/meta.json", "w") as f:
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), f, indent=1)
        p = run(["sh", out + "/demo.sh"], cwd=r, timeout=300)
        if p.returncode:
            return "demo fails on the unchanged tree: " + p.stdout[-600:]
        for fn, old, new in s["edits"]:
            t = open(r + "/" + fn).read()
            if t.count(old) != 1:
                return "%d matches in %s" % (t.count(old), fn)
            open(r + "/" + fn, "w").write(t.replace(old, new))
        open(out + "/patch.diff", "w").write(run(["git", "-C", r, "diff"]).stdout)
        p = run(["sh", out + "/demo.sh"], cwd=r, timeout=300)
        if not p.returncode:
            return "demo passes with the patch"
        d1 = p.stdout.strip().splitlines()[-1:]
        p = run(["/opt/venv/bin/python", "-bb", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "pytest_timeout", "-p", "vp_hachoir", "--timeout=300", "-W", "error", "-W", "ignore::pytest.PytestCollectionWarning", "--deselect", "tests/test_parser.py::TestParsers::test_ext2_variety_inode_types", "tests"], cwd=r,
                env=dict(os.environ, LC_ALL="C.UTF-8", TZ="UTC", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", SLOW_TESTS="1",
                         PYTHONPATH=r + ":/opt/vp/support", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1"))
        if p.returncode:
            return "tests fail: " + p.stdout[-800:]
        return "ok " + str(d1)
    finally:
        shutil.rmtree(d)


def check(s):
    d, r = scratch()
    try:
        p = run(["git", "-C", r, "apply", V + "/seeded/" + s["name"] + "/patch.diff"])
        if p.returncode:
            return "patch does not apply " + p.stdout
        p = run([V + "/check", s["prop"], "quick"], env=dict(os.environ, HACHOIR_REPO=r))
        v = [x for x in p.stdout.splitlines() if x.startswith(("counterexample", "VIOLATION", "ERROR", "SPURIOUS", "INCOMPLETE"))]
        return "%s exit %d %s" % ("CAUGHT" if p.returncode == 1 and any("VIOLATION" in x for x in v) else "MISSED", p.returncode, "\n      ".join(x[:250] for x in v[:4]))
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    args = sys.argv[1:]
    fn = build
    if "--check" in args:
        args.remove("--check")
        fn = check
    for s in SPEC:
        if args and s["name"] not in args:
            continue
        print(s["name"], s["prop"], fn(s), flush=True)
