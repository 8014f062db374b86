"""Runs harnesses on concrete inputs against the real (JIT-compiled,
unmodified) code.  `--server`: one JSON job per stdin line, one JSON answer per
stdout line.  With a file argument: replays that counterexample."""
import contextlib
import importlib
import io
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def setup():
    os.environ.setdefault("MPLBACKEND", "Agg")
    repo = os.environ.get("VERIF_REPO", "/repo")
    for p in (ROOT, repo):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)


def run_one(job):
    from engine.ctx import Assume, ConcCtx, Diverged

    from engine import fresh

    warnings.simplefilter("ignore")
    with contextlib.redirect_stdout(io.StringIO()):
        fresh.reset()
    mod = importlib.import_module("harness." + job["module"])
    case = {c.name: c for c in mod.cases(job.get("tier", "quick"))}.get(
        job["case"]
    )
    if case is None:
        case = {c.name: c for c in mod.cases("thorough")}[job["case"]]
    ctx = ConcCtx(job["inputs"])
    res = {"status": "ok", "fails": [], "obs": []}
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            import numpy as np

            with np.errstate(all="ignore"):
                case.fn(ctx, **case.params)
    except Assume as e:
        res["status"] = "assume"
        res["error"] = str(e)
        return res
    except Diverged as e:
        res["status"] = "diverged"
        res["error"] = "input %s not drawn" % e
        return res
    except Exception as e:  # the code under test raised
        res["status"] = "exception"
        res["exc_type"] = type(e).__name__
        res["error"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        res["trace"] = traceback.format_exc()[-3000:]
    res["fails"] = ctx.fails[:20]
    if ctx.fails and res["status"] == "ok":
        res["status"] = "fail"
    res["obs"] = ctx.obs[:400]
    return res


def server():
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)  # anything the code prints goes to stderr
    for line in sys.stdin:
        line = line.strip()
        if not line:
            continue
        job = json.loads(line)
        try:
            res = run_one(job)
        except BaseException as e:  # noqa: B902 (report, keep serving)
            res = {"status": "error", "error": repr(e),
                   "trace": traceback.format_exc()[-2000:]}
        res["id"] = job.get("id")
        out.write(json.dumps(res, default=str) + "\n")
        out.flush()


def main():
    setup()
    if sys.argv[1:] == ["--server"]:
        server()
        return 0
    job = json.load(open(sys.argv[1]))
    res = run_one(job)
    print(json.dumps({k: v for k, v in res.items() if k != "obs"}, indent=1,
                     default=str))
    return 1 if res["status"] in ("fail", "exception") else 0


if __name__ == "__main__":
    sys.exit(main())
