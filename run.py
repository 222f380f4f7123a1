#!/usr/bin/env python3
"""Check runner.

    run.py PID [quick|thorough] [--only SCENARIO] [-v]

Explores every scenario of props/<pid>.py symbolically over the current source of /repo
(one forked worker per scenario), replays every counterexample and a sample of path
witnesses on the real, untransformed package, writes evidence/<PID>.json.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: nothing was decided.
"""
import json
import os
import random
import resource
import select
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
QUICK_TOTAL = 300
THOROUGH_TOTAL = 3000

from symx.replay import load_prop  # noqa: E402


def replay_python():
    for p in ("/opt/venv/bin/python", "/usr/bin/python3"):
        if os.path.exists(p):
            return p
    return sys.executable


# ------------------------------------------------------------------ symbolic worker
def explore_scenario(pid, name, opts, tier, seed, seconds):
    from symx import core, transform
    from symx.harness import SymSX
    e = core.Engine(seed=seed, query_ms=opts.get("query_ms", 20000),
                    max_decisions=opts.get("max_decisions", 6000),
                    path_seconds=opts.get("path_seconds", 60), conc_k=opts.get("conc_k", 3))
    ppath = os.path.join(HERE, "props", pid.lower() + ".py")
    verbose = opts.get("verbose")

    def one(eng):
        w = transform.World(SRC)
        eng.world = w
        try:
            m = w.load_file(ppath, "prop_" + pid)
            fn = {s[0]: s for s in m.scenarios(tier)}[name][1]
            sx = SymSX(eng, w, tier, opts.get("params", {}))
            sx.any_text = getattr(m, "ANY_TEXT", False)
            fn(sx)
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            loc = ["%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb[-5:]]
            if verbose:
                traceback.print_exc()
            eng.failed("%s: %s at %s" % (type(ex).__name__, safe(ex), " < ".join(reversed(loc))))

    t0 = time.time()
    done = e.explore(one, deadline=t0 + seconds, want_witnesses=opts.get("witnesses", 6))
    return dict(name=name, exhausted=bool(done), stats=e.stats, functions=sorted(e.functions),
                candidates=e.candidates, witnesses=e.witnesses,
                incomplete=count(e.incomplete), wall_s=round(time.time() - t0, 2))


def safe(ex):
    try:
        return str(ex)[:160]
    except BaseException:
        return "?"


def count(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d


def child(wfd, pid, sc, tier, seed, seconds):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(20000)
    try:
        r = explore_scenario(pid, sc[0], sc[2], tier, seed, seconds)
    except BaseException as ex:
        r = dict(name=sc[0], error="%s: %s" % (type(ex).__name__, safe(ex)), tb=traceback.format_exc()[-3000:])
    data = json.dumps(r, default=lambda o: "<%s>" % type(o).__name__).encode("utf-8", "surrogatepass")
    while data:
        n = os.write(wfd, data)
        data = data[n:]
    os._exit(0)


def replay(jobs):
    if not jobs:
        return []
    with tempfile.TemporaryDirectory(prefix="symx-run-") as d:
        jf, of = os.path.join(d, "jobs.json"), os.path.join(d, "out.json")
        with open(jf, "w") as f:
            json.dump(jobs, f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO, PYTHONHASHSEED="0", TZ="UTC")
        p = subprocess.run([replay_python(), os.path.join(HERE, "symx", "replay.py"), jf, of], env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        try:
            with open(of) as f:
                return json.load(f)
        except (OSError, ValueError):
            return [{"outcome": "harness-error", "msg": p.stderr.decode()[-500:]} for _ in jobs]


BROKEN = ("fail", "exception", "hang", "crash")


def same_obs(a, b):
    if isinstance(a, dict) and isinstance(b, dict) and "float" in a and "float" in b:
        if a == b:
            return True
        try:
            x, y = [float(v["float"]) if v["float"] in ("nan", "inf", "-inf") else float.fromhex(v["float"])
                    for v in (a, b)]
        except ValueError:
            return False
        return abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))
    if isinstance(a, (int, float)) and isinstance(b, dict) and "float" in b:
        return same_obs({"float": float(a).hex()}, b)
    if isinstance(b, (int, float)) and isinstance(a, dict) and "float" in a:
        return same_obs(b, a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_obs(x, y) for x, y in zip(a, b))
    return a == b


def main():
    t0 = time.time()
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    pid = args[0].upper()
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    if only in args and args.index(only) == 1:
        tier = "quick"
    verbose = "-v" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rnd = random.Random(seed)
    mod = load_prop(pid)
    scs = []
    for s in mod.scenarios(tier):
        opts = dict(s[2]) if len(s) > 2 else {}
        if verbose:
            opts["verbose"] = True
        scs.append((s[0], s[1], opts))
    if only:
        scs = [s for s in scs if s[0].startswith(only)]
    names = [s[0] for s in scs]
    assert len(set(names)) == len(names), "duplicate scenario names"
    with open(os.path.join(HERE, "known_findings.json")) as f:
        known = [k for k in json.load(f)["findings"] if k["property"] == pid and k["status"] == "open"]
    total = float(os.environ.get("VERIF_BUDGET", QUICK_TOTAL if tier == "quick" else THOROUGH_TOTAL))
    default_seconds = 100 if tier == "quick" else 900
    # longest first
    queue = sorted(scs, key=lambda s: -s[2].get("weight", 1))
    # warm the engine, z3 and the compile cache before forking
    from symx import core, transform, harness  # noqa: F401
    for root, _, files in os.walk(os.path.join(SRC, "opyenxes")):
        for fn in files:
            if fn.endswith(".py"):
                p = os.path.join(root, fn)
                rel = os.path.relpath(p, SRC)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
                try:
                    transform.compile_file(p, rel)
                except SyntaxError:
                    pass
    transform.compile_file(os.path.join(HERE, "props", pid.lower() + ".py"), "prop_" + pid)

    running, results, violations, findings, notes = {}, [], [], [], []
    validated = 0
    stop = False

    def finish(r, sc):
        nonlocal validated, stop
        name = sc[0]
        results.append(r)
        if "error" in r:
            notes.append("%s: engine error %s" % (name, r["error"]))
            if verbose:
                print(r.get("tb"))
            return
        jobs, kinds = [], []
        for c in r["candidates"]:
            jobs.append(dict(prop=pid, scenario=name, params=sc[2].get("params", {}), tier=tier,
                             inputs=c["inputs"], timeout=20))
            kinds.append(("cand", c))
        for w in r["witnesses"]:
            jobs.append(dict(prop=pid, scenario=name, params=sc[2].get("params", {}), tier=tier,
                             inputs=w["inputs"], timeout=20))
            kinds.append(("wit", w))
        outs = replay(jobs)
        r["validated"] = 0
        for (kind, x), job, o in zip(kinds, jobs, outs):
            if kind == "cand":
                x["replayed"] = o["outcome"]
                if o["outcome"] in BROKEN:
                    violations_add(sc, x["msg"], job, o)
                elif x.get("fuzzy"):
                    notes.append("%s: inconclusive (double rounding over-approximated): %s" % (name, x["msg"]))
                elif x["kind"] == "assertion":
                    notes.append("%s: ENCODING-MISMATCH: counterexample does not reproduce (%s): %s" % (
                        name, o["outcome"], x["msg"]))
                else:
                    notes.append("%s: inconclusive path: %s (real code: %s %s)" % (name, x["msg"], o["outcome"],
                                                                               o.get("msg", "")))
            else:
                if o["outcome"] in BROKEN:
                    violations_add(sc, "witness of a passing path fails on the real code", job, o)
                elif o["outcome"] != "pass":
                    notes.append("%s: witness %s on the real code: %s" % (name, o["outcome"], o.get("msg", "")))
                else:
                    sym, real = x["observed"], o["observed"]
                    if same_obs(sym, real):
                        validated += 1
                        r["validated"] += 1
                    else:
                        notes.append("%s: ENCODING-MISMATCH: observed %s on the real code, %s symbolically; inputs %s"
                                     % (name, json.dumps(real)[:300], json.dumps(sym)[:300],
                                        json.dumps(x["inputs"])[:300]))
        if violations:
            stop = True

    def violations_add(sc, msg, job, o):
        k = sc[2].get("finding")
        if k:
            e = [x for x in known if x["id"] == k]
            if e:
                if not any(f["id"] == k for f in findings):
                    findings.append(dict(id=k, what=e[0]["what"], inputs=job["inputs"], outcome=o))
                return
        violations.append(dict(scenario=sc[0], msg=msg, job=job, outcome=o))

    end_all = t0 + total
    while (queue or running) and not stop:
        while queue and len(running) < WORKERS:
            sc = queue.pop(0)
            left = end_all - time.time()
            if left < 2:
                notes.append("%s: not run (time budget)" % sc[0])
                results.append(dict(name=sc[0], error="not run"))
                continue
            secs = min(sc[2].get("seconds", default_seconds), left)
            rfd, wfd = os.pipe()
            cpid = os.fork()
            if cpid == 0:
                os.close(rfd)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                child(wfd, pid, sc, tier, seed, secs)
            os.close(wfd)
            running[rfd] = [cpid, sc, b"", time.time() + secs + 90]
        if not running:
            break
        ready, _, _ = select.select(list(running), [], [], 1.0)
        now = time.time()
        for fd in list(running):
            cpid, sc, buf, hard = running[fd]
            closed = False
            if fd in ready:
                b = os.read(fd, 1 << 20)
                if b:
                    running[fd][2] += b
                else:
                    closed = True
            if now > hard and not closed:
                os.kill(cpid, signal.SIGKILL)
                closed = True
            if closed:
                os.close(fd)
                os.waitpid(cpid, 0)
                buf = running.pop(fd)[2]
                try:
                    r = json.loads(buf)
                except ValueError:
                    r = dict(name=sc[0], error="worker died or ran out of time")
                finish(r, sc)
                if verbose:
                    print("  %-40s %s" % (sc[0], summary(r)), flush=True)
    for fd in list(running):
        os.kill(running[fd][0], signal.SIGKILL)
        os.waitpid(running[fd][0], 0)
        os.close(fd)

    # ---------------------------------------------------------------- evidence
    agg = {}
    funcs = set()
    for r in results:
        for k, v in r.get("stats", {}).items():
            agg[k] = agg.get(k, 0) + v
        funcs.update(r.get("functions", ()))
    samples = []
    for r in results:
        for w in r.get("witnesses", [])[:1]:
            samples.append(dict(scenario=r["name"], inputs=w["inputs"], observed=w["observed"]))
    rnd.shuffle(samples)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(
                  states=agg.get("paths", 0), transitions=agg.get("decisions", 0),
                  traces_validated_against_impl=validated,
                  samples=samples[:12],
                  functions_encoded=sorted(f for f in funcs if f.startswith("opyenxes")),
                  bounds=getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", {})) if isinstance(
                      getattr(mod, "BOUNDS", {}), dict) else mod.BOUNDS,
                  outside=getattr(mod, "OUTSIDE", ""),
                  obligations=agg.get("obligations", 0), discharged=agg.get("discharged", 0),
                  discharged_on_the_path_condition=agg.get("discharged_by_path", 0),
                  solver_queries=agg.get("queries", 0), solver_s=round(agg.get("solver_s", 0.0), 2),
                  solver_unknown=agg.get("unknown", 0), infeasible_paths=agg.get("infeasible", 0),
                  concretised_values=agg.get("concretised", 0),
                  float_as_real=agg.get("float_as_real", 0),
                  exhaustive=all(r.get("exhausted") for r in results) and bool(results) and not stop,
                  scenarios={r["name"]: dict(exhausted=r.get("exhausted", False), wall_s=r.get("wall_s"),
                                             incomplete=r.get("incomplete"), error=r.get("error"),
                                             paths=r.get("stats", {}).get("paths"),
                                             obligations=r.get("stats", {}).get("obligations"),
                                             witnesses_validated=r.get("validated"))
                             for r in results},
                  inconclusive=notes[:60],
                  known_findings=[dict(id=f["id"], inputs=f["inputs"], outcome=f["outcome"]) for f in findings]),
              assumptions=getattr(mod, "ASSUMES", []), wall_s=round(time.time() - t0, 2),
              violations=len(violations))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for f in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))
    for n in list(dict.fromkeys(notes))[:20]:
        print("note: " + n)
    print("%s %s: %d scenarios, %d paths, %d obligations, %d discharged, %d queries, %.1f s solver, %d witnesses "
          "validated, exhaustive=%s, %.1f s" % (pid, tier, len(results), agg.get("paths", 0), agg.get("obligations", 0),
          agg.get("discharged", 0), agg.get("queries", 0), agg.get("solver_s", 0), validated,
          ev["coverage"]["exhaustive"], time.time() - t0))
    if violations:
        os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
        v = violations[0]
        path = os.path.join(HERE, "evidence", "replays", "%s-%d.json" % (pid, os.getpid()))
        with open(path, "w") as f:
            json.dump([v["job"]], f, indent=1)
        print("violated: %s [%s]: %s -> %s %s" % (v["scenario"], json.dumps(v["job"]["inputs"])[:600], v["msg"],
                                                  v["outcome"]["outcome"], v["outcome"].get("msg", "")))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    decided = [r for r in results if r.get("stats", {}).get("obligations")]
    if not decided:
        print("nothing was decided")
        return 2
    return 0


def summary(r):
    if "error" in r:
        return "ERROR " + r["error"]
    s = r["stats"]
    return "%s paths=%d obl=%d/%d dec=%d q=%d %.1fs solver %.1fs inc=%s cands=%d val=%s" % (
        "done" if r["exhausted"] else "PARTIAL", s["paths"], s["discharged"], s["obligations"], s["decisions"],
        s["queries"], s["solver_s"], r["wall_s"], r["incomplete"], len(r["candidates"]), r.get("validated"))


if __name__ == "__main__":
    sys.exit(main())
