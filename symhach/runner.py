"""Runs the check of one property: symbolic jobs in parallel, replay of
counterexamples against the real code, evidence file, verdict."""
import importlib
import json
import multiprocessing
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HACHOIR_REPO", "/repo")


from symhach.h import H  # noqa


_ready = False
_funcs = set()


def _setup_symbolic():
    global _ready
    if _ready:
        return
    _ready = True
    from symhach import loader
    loader.install(REPO)
    mon = sys.monitoring
    tool = 3
    mon.use_tool_id(tool, "symhach")

    def start(code, off):
        fn = code.co_filename
        if fn.startswith(REPO + "/"):
            _funcs.add("%s:%s" % (os.path.relpath(fn, REPO), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    loader.stub_logging()


def run_job(job):
    try:
        return _run_job(job)
    except BaseException as e:
        return dict(job=job, error="%s: %s\n%s" % (type(e).__name__, e,
                                                   traceback.format_exc()),
                    stats={}, incomplete=[], ces=[], samples=[], labels={},
                    functions=[], wall=0.0, files={})


def _run_job(job):
    module, hname, cfg, limits, known, seed = job
    t0 = time.monotonic()
    if limits.get("deadline"):
        left = limits["deadline"] - time.time()
        if left < 5:
            return dict(job=job, stats=dict(budget=1), incomplete=["not started: total time budget exhausted"],
                        ces=[], samples=[], labels={}, functions=[], wall=0.0, files={})
        limits["time"] = min(limits["time"], left)
    _setup_symbolic()
    sys.setrecursionlimit(5000)
    _funcs.clear()
    sys.monitoring.restart_events()
    from symhach import core, loader
    from symhach.env import SymEnv
    mod = importlib.import_module(module)
    h = {x.name: x for x in mod.HARNESSES}[hname]
    eng = core.Engine(time_limit=limits["time"], max_decisions=h.max_decisions,
                      query_ms=limits.get("query_ms", 120000))
    eng.conc_limit = h.conc_limit
    env = SymEnv(eng, cfg, known)
    rng = random.Random("%s/%s/%s" % (seed, hname, json.dumps(cfg, sort_keys=True, default=str)))
    ces, samples = [], []
    nsample = limits.get("samples", 6)
    seen = {}
    count = [0]

    def on_path(outcome, exc):
        if outcome == "infeasible":
            return
        if outcome == "done":
            count[0] += 1
            k = count[0]
            if len(samples) < nsample:
                slot = len(samples)
                samples.append(None)
            else:
                slot = rng.randrange(k)
                if slot >= nsample:
                    return
            samples[slot] = dict(inputs=env.model_inputs(),
                                 observed=[env.eval(x) for x in eng.observed],
                                 reached=list(eng.reached))
            return
        label = getattr(exc, "label", None) or "%s: %s" % (type(exc).__name__, exc)
        where = ""
        if outcome in ("exception", "unsupported", "bound"):
            tb = traceback.extract_tb(exc.__traceback__)
            where = " @ " + " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno)
                                       for f in reversed(tb[-6:]))
        key = (outcome, label if outcome == "violated" else type(exc).__name__ + where)
        seen[key] = seen.get(key, 0) + 1
        if seen[key] <= (2 if outcome == "violated" else 3):
            ces.append(dict(outcome=outcome, label=label + where,
                            inputs=env.model_inputs()))
        if outcome == "violated" and sum(v for k2, v in seen.items() if k2[0] == "violated") >= 12:
            raise core.StopJob()
        if sum(seen.values()) >= 400:
            eng.note_incomplete("stopped after 400 abnormal paths")
            raise core.StopJob()

    eng.explore(lambda: h.fn(env), on_path)
    # abnormal paths beyond the recorded ones were not replayed
    return dict(job=job, stats=eng.stats, incomplete=eng.incomplete, ces=ces,
                abnormal={"%s|%s" % k: v for k, v in seen.items()},
                samples=samples, labels=eng.labels, functions=sorted(_funcs),
                wall=time.monotonic() - t0, files=dict(loader.LOADED))


def replay(cases, known=(), timeout=20, total=400):
    """Concrete runs in a fresh interpreter on the unmodified sources."""
    if not cases:
        return []
    d = tempfile.mkdtemp(prefix="symhach")
    try:
        inp, out = os.path.join(d, "in.json"), os.path.join(d, "out.json")
        with open(inp, "w") as f:
            json.dump(dict(cases=cases, out=out, known=list(known), timeout=timeout), f)
        env = dict(os.environ, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1",
                   PYTHONHASHSEED="0")
        try:
            p = subprocess.run([sys.executable, "-B", "-m", "symhach.replay", inp],
                               cwd=VERIF, env=env, timeout=total,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if not os.path.exists(out):
                return [dict(status="error", label=p.stdout.decode("utf-8", "replace")[-2000:])] * len(cases)
        except subprocess.TimeoutExpired:
            return [dict(status="error", label="replay timed out")] * len(cases)
        with open(out) as f:
            return json.load(f)
    finally:
        for n in ("in.json", "out.json"):
            try:
                os.unlink(os.path.join(d, n))
            except OSError:
                pass
        os.rmdir(d)


def real_violation(res):
    """The concrete run of the real code breaks the property.  An exception
    counts when the code under test raised it, not the harness (a renamed
    helper is not a violation)."""
    if res["status"] == "exception":
        return bool(res.get("in_repo")) and not res["label"].startswith(("ImportError", "ModuleNotFoundError"))
    return res["status"] in ("violated", "hang")


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            items = json.load(f)["findings"]
    except FileNotFoundError:
        return []
    return [x for x in items if x["property"] == prop and x.get("status") == "open"]


def _unfinished(jobs, results):
    """Result standing for the jobs stopped after a confirmed violation."""
    return dict(job=("", "", {}), stats={}, labels={}, functions=[], files={}, ces=[], samples=[], abnormal={}, wall=0.0,
                incomplete=["%d jobs stopped after a confirmed violation" % (len(jobs) - len(results))])


def main(argv=None):
    argv = argv if argv is not None else sys.argv[1:]
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    jobs_n = int(os.environ.get("SYMHACH_JOBS", "8"))
    verbose = "-v" in argv
    for a in argv[1:]:
        if a in ("quick", "thorough"):
            tier = a
        elif a.startswith("--only="):
            only = a[7:].split(",")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.environ["PYTHONHASHSEED"] = "0"
    t0 = time.monotonic()
    sys.path.insert(0, VERIF)
    module = "harness.%s" % prop.lower()
    # plain import, to list the jobs (harness modules import hachoir lazily)
    mod = importlib.import_module(module)
    findings = load_known(prop)
    known = [x["id"] for x in findings]
    total = float(os.environ.get("SYMHACH_TOTAL", "700" if tier == "quick" else "7200"))
    jobs = []
    hs = [h for h in mod.HARNESSES if not only or h.name in only]
    for h in hs:
        for cfg in (h.quick if tier == "quick" else h.thorough):
            tl = h.time_limit or (300 if tier == "quick" else 3000)
            if tier != "quick":
                tl = max(tl, 3000)
            jobs.append((module, h.name, cfg,
                         dict(time=tl, samples=4, deadline=time.time() + total,
                              query_ms=120000 if tier == "quick" else 600000),
                         known, seed))
    for m in [m for m in sys.modules if m == "harness" or m.startswith("harness.")]:
        del sys.modules[m]
    results = []
    order = list(range(len(jobs)))
    ctx = multiprocessing.get_context("fork")
    _setup_symbolic()
    sys.setrecursionlimit(5000)
    for name in getattr(mod, "PRELOAD", ()):
        try:
            importlib.import_module(name)
        except Exception as e:
            print("preload %s: %s" % (name, e))
    with ctx.Pool(min(jobs_n, max(1, len(jobs))), maxtasksperchild=25) as pool:
        it = pool.imap_unordered(run_job, [jobs[k] for k in order])
        stop_at = None
        replayed = 0
        while True:
            try:
                r = it.next(None if stop_at is None else max(0.1, stop_at - time.monotonic()))
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                # a violation is confirmed: its report does not wait for all the jobs
                results.append(_unfinished(jobs, results))
                break
            results.append(r)
            if r["ces"] and stop_at is None and replayed < 40:
                replayed += 1
                cases = [dict(module=module, harness=r["job"][1], cfg=r["job"][2], inputs=c["inputs"]) for c in r["ces"][:2]]
                if any(real_violation(x) for x in replay(cases, known)):
                    stop_at = time.monotonic() + (60 if tier == "quick" else 600)
            if verbose and (r['wall'] > 1.0 or r['ces'] or r.get('error') or r['incomplete']):
                s = r["stats"]
                print("  %-28s %-60s paths=%s q=%s solver=%.1fs wall=%.1fs ce=%d %s%s" % (
                    r["job"][1], json.dumps(r["job"][2])[:60], s.get("paths"),
                    s.get("queries"), s.get("solver_s", 0), r["wall"], len(r["ces"]),
                    r["incomplete"] or "", (" ERROR " + r["error"]) if r.get("error") else ""), flush=True)
        pool.terminate()
    return verdict(prop, tier, seed, mod, hs, results, findings, known, t0, verbose, bool(only))


def verdict(prop, tier, seed, mod, hs, results, findings, known, t0, verbose, partial):
    module = "harness.%s" % prop.lower()
    tot = {}
    labels, functions, files = {}, set(), {}
    incomplete, errors = [], []
    cases, origin = [], []
    samples, sorigin = [], []
    per_h = {}
    for r in results:
        _, hname, cfg = r["job"][:3]
        for k, v in r["stats"].items():
            if k == "max_trail":
                tot[k] = max(tot.get(k, 0), v)
            else:
                tot[k] = tot.get(k, 0) + v
        ph = per_h.setdefault(hname, dict(jobs=0, paths=0, queries=0, solver_s=0.0, checks=0))
        ph["jobs"] += 1
        for k in ("paths", "queries", "solver_s", "checks"):
            ph[k] += r["stats"].get(k, 0)
        for k, v in r["labels"].items():
            labels["%s/%s" % (hname, k)] = labels.get("%s/%s" % (hname, k), 0) + v
        functions.update(r["functions"])
        files.update(r["files"])
        for w in r["incomplete"]:
            incomplete.append("%s %s: %s" % (hname, json.dumps(cfg), w))
        if r.get("error"):
            errors.append("%s %s: %s" % (hname, json.dumps(cfg), r["error"]))
        for ce in r["ces"]:
            cases.append(dict(module=module, harness=hname, cfg=cfg, inputs=ce["inputs"]))
            origin.append(ce)
        for s in r["samples"]:
            if s is not None:
                samples.append(dict(module=module, harness=hname, cfg=cfg, inputs=s["inputs"]))
                sorigin.append(s)
    # reachability witnesses: each assertion of each harness was reached on at
    # least one feasible path
    for h in hs:
        for lab in h.expect:
            if not labels.get("%s/%s" % (h.name, lab)):
                errors.append("vacuous: assertion %r of %s was never reached" % (lab, h.name))
        if not any(k.startswith(h.name + "/") for k in labels) and not cases:
            errors.append("vacuous: no assertion of %s was reached" % h.name)

    violations, spurious, engine_gaps = [], [], []
    # replay counterexamples: assertion failures first
    prio = sorted(range(len(cases)), key=lambda k: origin[k]["outcome"] != "violated")[:120]
    rep = replay([cases[k] for k in prio], known, timeout=20)
    for k, res in zip(prio, rep):
        o = origin[k]
        if real_violation(res):
            violations.append((cases[k], o, res))
        elif res["status"] == "not run":
            pass
        elif res["status"] == "exception":
            errors.append("harness cannot run: %s %s" % (res["label"], res.get("where")))
        elif res["status"] == "error":
            errors.append("replay: %s" % res.get("label"))
        elif o["outcome"] == "violated":
            spurious.append((cases[k], o, res))
        else:
            engine_gaps.append((cases[k], o, res))
    # differential validation of the engine on explored paths
    rng = random.Random(seed)
    order = list(range(len(samples)))
    rng.shuffle(order)
    order = order[:300]
    vres = replay([samples[k] for k in order], known, timeout=20)
    validated = 0
    for k, res in zip(order, vres):
        s = sorigin[k]
        if res["status"] == "ok" and res["observed"] == s["observed"] and res["reached"] == s["reached"]:
            validated += 1
        elif real_violation(res):
            violations.append((samples[k], dict(outcome="path model", label="path model"), res))
        elif res["status"] == "not run":
            pass
        elif res["status"] == "error":
            errors.append("replay: %s" % res.get("label"))
        else:
            errors.append("engine disagrees with the real code on %s: %s vs %s" % (
                json.dumps(samples[k])[:400], json.dumps(res)[:400],
                json.dumps(dict(observed=s["observed"], reached=s["reached"]))[:400]))

    for x in findings:
        if partial and x["harness"] not in [h.name for h in hs]:
            continue
        r = replay([dict(module=module, harness=x["harness"], cfg=x["cfg"], inputs=x["inputs"])], ())[0]
        if real_violation(r):
            print("KNOWN-FINDING: property=%s %s: %s" % (prop, x["id"], x["what"]))
        else:
            print("note: listed finding %s no longer fails (%s)" % (x["id"], r["status"]))

    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for n in os.listdir(rdir):
        if n.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, n))
    shown = set()
    nviol = 0
    for case, o, res in violations:
        lab = str(res.get("label"))
        if res["status"] == "exception":
            lab = lab.split(":")[0] + str((res.get("where") or [""])[-1])
        key = (case["harness"], lab)
        if key in shown:
            continue
        shown.add(key)
        nviol += 1
        if nviol > 10:
            continue
        path = os.path.join(rdir, "%s-%d.json" % (prop, nviol))
        with open(path, "w") as f:
            json.dump(dict(case, found=o["label"], replayed=res), f, indent=1)
        print("counterexample: harness %s %s: %s (%s); inputs %s" % (
            case["harness"], json.dumps(case["cfg"]), res.get("label"), res["status"],
            json.dumps(case["inputs"])[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))

    tot.setdefault("paths", 0)
    exhaustive = not incomplete and not errors and not spurious and not engine_gaps and not partial
    wall = time.monotonic() - t0
    srcs = {os.path.relpath(k, REPO): v[:16] for k, v in files.items() if k.startswith(REPO + "/")}
    used_files = {f.split(":")[0] for f in functions}
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot.get("decisions", 0),
            transitions=tot.get("edges", 0),
            traces_validated_against_impl=validated,
            samples=[dict(samples[k], observed=sorigin[k]["observed"]) for k in order[:5]],
            exhaustive=exhaustive,
            explanation="Bounded symbolic execution of the sources in %s as they are now. "
            "states: symbolic branch points; transitions: branch edges explored. Every "
            "assertion is decided by z3 for all inputs within the bounds, on every "
            "feasible path; path models are replayed on the unmodified code "
            "(traces_validated_against_impl)." % REPO,
            paths=tot["paths"], paths_pruned=tot.get("pruned", 0),
            assertions=tot.get("checks", 0),
            assertions_decided_by_query=tot.get("checks_queried", 0),
            assertions_decided_by_simplification=tot.get("checks_concrete", 0),
            queries=tot.get("queries", 0), sat=tot.get("sat", 0),
            unsat=tot.get("unsat", 0), unknown=tot.get("unknown", 0),
            solver_s=round(tot.get("solver_s", 0.0), 3),
            longest_path_decisions=tot.get("max_trail", 0),
            concretisations=tot.get("concretized", 0),
            jobs=len(results),
            harnesses={h.name: dict(bounds=h.bounds, **{k: (round(v, 3) if isinstance(v, float) else v)
                                                        for k, v in per_h.get(h.name, {}).items()})
                       for h in hs},
            assertion_sites_reached={k: v for k, v in sorted(labels.items())},
            functions_encoded=sorted(functions),
            source_sha256={k: v for k, v in sorted(srcs.items()) if k in used_files},
            incomplete=incomplete[:50], engine_gaps=[
                dict(case=c, why=o["label"]) for c, o, _ in engine_gaps[:20]],
            known_findings=[x["id"] for x in findings],
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) + [
            "logging (hachoir.core.log.Log.newMessage) has an empty body",
            "CPython semantics of the operations modelled by symhach (validated by replaying path models on the real code)",
            "z3 %s decides bit-vector queries correctly" % _z3v(),
        ],
        wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print("%s %s: %d jobs, %d paths, %d assertions (%d by query), %d queries, solver %.1f s, "
          "%d path models replayed, wall %.1f s" % (
              prop, tier, len(results), tot["paths"], tot.get("checks", 0),
              tot.get("checks_queried", 0), tot.get("queries", 0), tot.get("solver_s", 0.0),
              validated, wall))
    for w in incomplete[:10]:
        print("INCOMPLETE: " + w)
    for c, o, r in engine_gaps[:10]:
        print("ENGINE GAP (path decided by concrete runs only): %s %s: %s" % (
            c["harness"], json.dumps(c["cfg"]), o["label"]))
    for c, o, r in spurious[:10]:
        print("SPURIOUS counterexample (not reproduced): %s %s: %s inputs %s -> %s" % (
            c["harness"], json.dumps(c["cfg"]), o["label"], json.dumps(c["inputs"])[:500],
            json.dumps(r)[:500]))
    for e in errors[:10]:
        print("ERROR: " + e)
    if nviol:
        return 1
    if errors or spurious:
        return 3
    hard = [w for w in incomplete if "solver unknown" in w]
    if hard:
        return 3
    print("%s: held on everything explored%s" % (prop, "" if exhaustive else " (exploration not exhaustive)"))
    return 0


def _z3v():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    sys.exit(main())
