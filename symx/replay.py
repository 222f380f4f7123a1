"""Concrete replay: runs scenarios on the real, unmodified package (no engine, no transform).

usage: replay.py JOBS.json OUT.json      (each job forks; a job that hangs is killed)
job: {prop, scenario, params, tier, inputs, timeout}
"""
import importlib.util
import json
import os
import shutil
import signal
import sys
import tempfile
import time as _time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True


def setup():
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") not in (HERE, os.path.join(HERE, "symx"))]
    sys.path.insert(0, os.path.join(REPO, "src"))
    sys.path.insert(1, HERE)


def load_prop(pid):
    path = os.path.join(HERE, "props", pid.lower() + ".py")
    spec = importlib.util.spec_from_file_location("prop_" + pid, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules["prop_" + pid] = m
    spec.loader.exec_module(m)
    return m


def contain(scratch):
    """Calls that remove or move files act inside the scratch folder only."""
    os.environ["HOME"] = os.environ["USERPROFILE"] = scratch
    root = os.path.realpath(scratch) + os.sep

    def guard(name, n):
        real = getattr(os, name)

        def f(*a, **k):
            for p in a[:n]:
                if not (os.path.realpath(os.path.dirname(os.path.abspath(p))) + os.sep).startswith(root):
                    raise PermissionError(1, "outside of the scratch folder", p)
            return real(*a, **k)
        setattr(os, name, f)
    for n, k in (("remove", 1), ("unlink", 1), ("rmdir", 1), ("rename", 2), ("replace", 2), ("truncate", 1), ("removedirs", 1)):
        guard(n, k)

    def rmtree(path, *a, **k):
        raise PermissionError(1, "removing folders is not part of the code under test", path)
    shutil.rmtree = rmtree


def run_job(job, scratch):
    contain(scratch)
    from symx.harness import ConcreteSX, Stop, CheckFailed
    sx = ConcreteSX(job["inputs"], job.get("tier", "quick"), job.get("params", {}), scratch)
    real_time = _time.time

    def fake_time():
        f = sys._getframe(1)
        fn = f.f_code.co_filename
        if "opyenxes" not in fn:
            return real_time()
        while f is not None:
            if f.f_code.co_name == "<module>" and "opyenxes" in f.f_code.co_filename:
                return 10 ** 15 / 1e6
            f = f.f_back
        return sx.clock_next() / 1e6
    _time.time = fake_time
    import builtins
    builtins.print = lambda *a, **k: sx.prints.append([str(x) for x in a])
    m = load_prop(job["prop"])
    fn = {s[0]: s for s in m.scenarios(job.get("tier", "quick"))}[job["scenario"]][1]
    res = {}
    try:
        fn(sx)
        res["outcome"] = "pass"
    except Stop:
        res["outcome"] = "assumption"
    except CheckFailed as e:
        res["outcome"] = "fail"
        res["msg"] = str(e)
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ["%s:%d" % (os.path.relpath(t.filename, REPO) if t.filename.startswith(REPO) else
                            os.path.basename(t.filename), t.lineno) for t in tb[-4:]]
        res["outcome"] = "exception"
        res["msg"] = "%s: %s" % (type(e).__name__, str(e)[:200])
        res["where"] = where
        res["in_repo"] = any(t.filename.startswith(REPO) for t in tb)
    res["observed"] = sx.observed
    res["checks"] = sx.checks
    return res


def main():
    setup()
    jobs = json.load(open(sys.argv[1]))
    # warm the package so that forked children do not import it again
    out = []
    for job in jobs:
        scratch = tempfile.mkdtemp(prefix="symx-replay-")
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            signal.alarm(int(job.get("timeout", 30)))
            try:
                os.chdir(scratch)
                r = run_job(job, scratch)
            except BaseException as e:
                r = {"outcome": "harness-error", "msg": "%s: %s" % (type(e).__name__, e),
                     "tb": traceback.format_exc()[-1500:]}
            try:
                data = json.dumps(r).encode("utf-8", "surrogatepass")
                while data:
                    n = os.write(wfd, data)
                    data = data[n:]
            finally:
                os._exit(0)
        os.close(wfd)
        buf = b""
        while True:
            b = os.read(rfd, 65536)
            if not b:
                break
            buf += b
        os.close(rfd)
        _, st = os.waitpid(pid, 0)
        try:
            r = json.loads(buf)
        except ValueError:
            r = {"outcome": "hang" if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM else "crash",
                 "msg": "status %d" % st}
        out.append(r)
        shutil.rmtree(scratch, ignore_errors=True)
    json.dump(out, open(sys.argv[2], "w"))


if __name__ == "__main__":
    main()
