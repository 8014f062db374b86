"""Driver: explores every case of a property symbolically (8 workers), has
every counterexample replayed on the real code, writes the evidence file."""
from __future__ import annotations

import collections
import contextlib
import importlib
import io
import json
import math
import os
import queue
import random
import subprocess
import sys
import threading
import time
import traceback
import warnings
from fractions import Fraction as F

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

_CASES = None
_COV = None


# ------------------------------------------------------------------ worker


def _inner(st, ctx, z3):
    """inputs away from the limits of the path's conditions"""
    from . import sym

    s = z3.Solver()
    s.set("timeout", 300)
    for b in st.pc:
        s.add(st.zb(b, "lin"))
    for ax in st.axioms:
        s.add(*ax("lin"))
    m = None
    end = time.time() + 3
    for b in st.pc:
        neg = isinstance(b, sym.SB) and b.kind == "not"
        a = b.args[0] if neg else b
        if not isinstance(a, sym.SB) or a.kind != "atom" or a.args[1] == "==":
            continue
        if time.time() > end:
            break
        p = -a.args[0] if neg else a.args[0]
        s.push()
        s.add(st.zb(sym.SB("atom", (p + 1e-3, "<=")), "lin"))
        if s.check() == z3.sat:
            m = s.model()
        else:
            s.pop()
    if m is None:
        return []
    return _models(st, ctx, z3, None, m, False)


def _models(st, ctx, z3, bad, first_model, exact, search=False):
    """candidate input assignments for a violated / sampled path"""
    from .explore import _zint, _zreal

    out = []
    reals = [at for k, at in ctx.inputs.values() if k == "real"]

    def take(m):
        a, b = {}, {}
        for n, (k, at) in ctx.inputs.items():
            if k == "const":
                a[n] = b[n] = at
                continue
            v = m.eval(_zint(at.name) if at.isint else _zreal(at.name),
                       model_completion=True)
            from .explore import _z2f

            f = _z2f(v)
            a[n] = b[n] = int(f) if at.isint else float(f)
            if at.haslog:
                lg = st.intern.get(("log", (at.id,)))
                f = _z2f(m.eval(_zreal(lg.name), model_completion=True))
                try:
                    b[n] = math.exp(float(f))
                except OverflowError:
                    pass
        for d in (b, a):
            if d not in out:
                out.append(d)

    def solver(t):
        if exact:
            s = z3.Solver()
            s.set("timeout", t)
            for b in st.pc:
                s.add(st.zb(b, "lin"))
            for ax in st.axioms:
                s.add(*ax("lin"))
            if bad is not None:
                s.add(st.zb(bad, "lin"))
            return s
        return st.full_solver(bad, t)[0]

    # "nice" inputs: small dyadic numbers replay exactly in floating point
    if reals:
        s = solver(1500 if bad is not None or exact else 500)
        for i, at in enumerate(reals):
            if at.haslog:
                continue
            k = z3.Int("dy!%d" % i)
            z = _zreal(at.name)
            s.add(z * 8 == z3.ToReal(k))
        if s.check() == z3.sat:
            take(s.model())
    if first_model is not None:
        take(first_model)
    if bad is not None and len(out) < 4:
        # spread the inputs a little
        s = solver(1500)
        for i, at in enumerate(reals):
            for bt in reals[:i]:
                s.add(z3.Or(_zreal(at.name) - _zreal(bt.name) > F(1, 64).numerator / z3.RealVal(64),
                            _zreal(bt.name) - _zreal(at.name) > z3.RealVal("1/64")))
        if s.check() == z3.sat:
            take(s.model())
    if out and not exact and search:
        from .ctx import improve

        out = improve(st, ctx, bad, out, random.Random(1)) + out
    return out[:6]


def run_path(case, prefix, stats, opts):
    from . import fresh, sym
    from .ctx import SymCtx, evalf, follows, on_edge
    from .explore import PathEnd, PathLimit, State
    from .z3load import z3

    fresh.reset()
    st = State(prefix, stats, opts)
    sym.set_state(st)
    ctx = SymCtx(st)
    res = {"end": "ok", "cand": None, "sample": None}
    err = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            case.fn(ctx, **case.params)
    except PathEnd:
        res["end"] = "infeasible"
        res["pending"] = st.pending
        return res
    except PathLimit as e:
        res["end"] = "limit"
        res["why"] = str(e)
        res["pending"] = st.pending
        return res
    except Exception as e:
        err = e
        res["end"] = "exception"
        res["error"] = "%s: %s" % (type(e).__name__, str(e)[:200])
        res["trace"] = traceback.format_exc()[-1500:]
    res["pending"] = st.pending
    res["reached"] = sorted(ctx.reached)
    res["partial"] = st.partial
    res["nassert"] = ctx.n_assert
    exact = not st.nonlinear and not any(
        a.kind in sym.INEXACT
        for a in st.atoms
    )
    res["exact"] = exact
    t_ms = opts.get("prove_ms", 20000)
    if err is not None:
        # an exception is a violation unless the path is infeasible; the
        # replay decides whether the code or the engine is to blame
        if exact:
            r, m = st._check()
            feas = r != z3.unsat
        else:
            s, _ = st.full_solver(None, t_ms)
            t0 = time.time()
            r = s.check()
            stats.queries += 1
            stats.solver_s += time.time() - t0
            feas = r != z3.unsat
            m = s.model() if r == z3.sat else st._check()[1]
        if not feas:
            res["end"] = "infeasible"
            return res
        res["cand"] = {
            "label": "exception:" + type(err).__name__,
            "inputs": _models(st, ctx, z3, None, m, exact, True),
        }
        return res
    conds = [c for _, c in ctx.conds]
    verdict, m = st.prove(conds, t_ms)
    res["verdict"] = verdict
    if verdict == "violated":
        # which assertion
        label = None
        for lb, c in ctx.conds:
            if isinstance(c, sym.SB):
                v = m.eval(st.zb(c, "lin" if exact else "full"),
                           model_completion=True)
                if z3.is_false(v):
                    label = lb
                    break
            elif not c:
                label = lb
                break
        bad = sym.sb_or(*[sym.sb_not(c) for _, c in ctx.conds])
        res["cand"] = {
            "label": label,
            "inputs": _models(st, ctx, z3, bad if isinstance(bad, sym.SB)
                              else None, m, exact, True),
        }
    elif verdict == "unknown" and m is not None:
        # not decided; the abstract model may still fail on the real code
        res["guess"] = {
            "label": "undecided", "guess": True,
            "inputs": _models(st, ctx, z3, None, m, True),
        }
    elif opts.get("want_sample"):
        if exact:
            r, m = st._check()
        else:
            s, _ = st.full_solver(None, 800)
            r = s.check()
            m = s.model() if r == z3.sat else None
            if m is None:
                m = st._check()[1]
        if m is not None:
            ins = _models(st, ctx, z3, None, m, exact)
            if not exact:
                ins = [e for e in ins if follows(st, e, {})]
                if not ins:
                    ins = [e for e in _inner(st, ctx, z3)
                           if follows(st, e, {})]
            memo = {}
            if ins:
                env = ins[0]
                obs = []
                for lb, v in ctx.obs[:400]:
                    try:
                        obs.append((lb, evalf(st, v, env, memo)))
                    except (ValueError, OverflowError, ZeroDivisionError,
                            KeyError, TypeError):
                        obs.append((lb, None))
                res["sample"] = {"inputs": env, "obs": obs,
                                 "edge": on_edge(st, env, memo)}
    return res


def work(task):
    """explore a bunch of prefixes of one case for a time slice"""
    ci, prefixes, opts = task
    from .explore import Stats

    case = _CASES[ci]
    stats = Stats()
    out = {
        "case": ci, "paths": 0, "infeasible": 0, "exceptions": 0,
        "limits": 0, "unknown": [], "cands": [], "samples": [],
        "reached": set(), "partial": 0, "asserts": 0, "nonlinear": 0,
        "errors": [], "guesses": [],
    }
    o = dict(opts)
    o.update(case.opts)
    stack = [list(map(tuple, p)) for p in prefixes]
    t_end = time.time() + opts.get("slice", 1.0)
    rng = random.Random(hash((opts.get("seed", 1), ci, len(stack[0]))))
    nsamp = 0
    while stack and time.time() < t_end:
        p = stack.pop()
        o["want_sample"] = "VERIF_SAMPLES" in os.environ or (
            nsamp < opts.get("samples_per_slice", 2) and (
                rng.random() < 0.3 or out["paths"] == 0))
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r = run_path(case, p, stats, o)
        except Exception as e:  # engine failure: undecided path
            out["errors"].append(
                "engine: %r %s" % (e, traceback.format_exc()[-800:])
            )
            out["paths"] += 1
            out["unknown"].append("engine error")
            continue
        stack.extend(r.get("pending", ()))
        if r["end"] == "infeasible":
            out["infeasible"] += 1
            continue
        if r["end"] == "limit":
            out["limits"] += 1
            out["errors"].append("limit: " + r.get("why", ""))
            continue
        out["paths"] += 1
        out["reached"].update(r["reached"])
        out["asserts"] += r["nassert"]
        if r["partial"]:
            out["partial"] += 1
        if not r["exact"]:
            out["nonlinear"] += 1
        if r["end"] == "exception":
            out["exceptions"] += 1
            r["cand"]["error"] = r["error"]
            r["cand"]["trace"] = r["trace"]
        if r["cand"]:
            out["cands"].append(r["cand"])
            if len(out["cands"]) >= 4:
                break
        elif r.get("verdict") == "unknown":
            out["unknown"].append("solver unknown")
            if r.get("guess"):
                out["guesses"].append(r["guess"])
        if r["cand"]:
            r["cand"]["exact"] = r["exact"]
        if r["sample"]:
            nsamp += 1
            out["samples"].append(r["sample"])
    out["rest"] = stack
    out["stats"] = stats.as_dict()
    out["reached"] = sorted(out["reached"])
    return out


# ------------------------------------------------------------------ master


class Replayer:
    """pool of processes running the real code"""

    def __init__(self, n=1):
        env = dict(os.environ)
        env.pop("NUMBA_DISABLE_JIT", None)
        env["PYTHONPATH"] = ROOT + ":" + REPO
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["MPLBACKEND"] = "Agg"
        self.tmp = os.path.join(
            os.environ.get("TMPDIR", "/tmp"), "verif-numba-%d" % os.getpid()
        )
        os.makedirs(self.tmp, exist_ok=True)
        env["NUMBA_CACHE_DIR"] = self.tmp
        env["NUMBA_NUM_THREADS"] = "2"
        self.proc = subprocess.Popen(
            [sys.executable, "-u", os.path.join(HERE, "replay.py"),
             "--server"],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=env, text=True, cwd=ROOT,
        )
        self.lock = threading.Lock()
        self.n = 0

    def run(self, job):
        with self.lock:
            self.n += 1
            job = dict(job, id=self.n)
            try:
                self.proc.stdin.write(json.dumps(job) + "\n")
                self.proc.stdin.flush()
                line = self.proc.stdout.readline()
            except (BrokenPipeError, ValueError, OSError):
                return {"status": "error", "error": "replay process died"}
            if not line:
                return {"status": "error", "error": "replay process died"}
            return json.loads(line)

    def close(self):
        try:
            self.proc.stdin.close()
            self.proc.wait(timeout=5)
        except Exception:
            self.proc.kill()
        import shutil

        if os.path.basename(self.tmp).startswith("verif-numba-"):
            shutil.rmtree(self.tmp, ignore_errors=True)


def reproduced(cand, res):
    """does the concrete run confirm the counterexample?"""
    if cand["label"] and cand["label"].startswith("exception:"):
        # the same kind of failure on the real code
        return res["status"] in ("exception", "fail")
    return res["status"] == "fail" or res["status"] == "exception"


def load_known(prop):
    p = os.path.join(ROOT, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out.append(d)
    return out


def match_known(known, case, res):
    for k in known:
        if k["case"] != case:
            continue
        if res["status"] == "exception":
            if k.get("exception") and k["exception"] == res.get("exc_type"):
                return k
            continue
        labels = set(k.get("labels", ()))
        if labels and all(
            any(f == lb or f.startswith(lb + "[") for lb in labels)
            for f in res["fails"]
        ):
            return k
    return None


def main(argv=None):
    argv = sys.argv[1:] if argv is None else argv
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    only = argv[2].split(",") if len(argv) > 2 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t_start = time.time()
    warnings.simplefilter("ignore")
    rep = Replayer()
    try:
        return _main(prop, tier, only, seed, t_start, rep)
    finally:
        rep.close()


def _main(prop, tier, only, seed, t_start, rep):
    global _CASES
    from . import loader
    from . import explore  # noqa: F401
    from .pool import Pool

    loader.install()
    sys.path.insert(0, ROOT)
    module = prop.lower()
    evid = os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(evid, "replay"), exist_ok=True)
    with contextlib.redirect_stdout(io.StringIO()):
        mod = importlib.import_module("harness." + module)
        import py_fatigue  # noqa: F401
    _CASES = [
        c for c in mod.cases(tier) if not only or c.name in only
    ]
    budget = float(os.environ.get(
        "VERIF_BUDGET", "420" if tier == "quick" else "3000"))
    deadline = t_start + budget
    nw = int(os.environ.get("VERIF_JOBS", str(min(8, os.cpu_count() or 1))))
    opts = {
        "seed": seed,
        "slice": 1.0,
        "deadline": deadline,
        "prove_ms": 20000 if tier == "quick" else 60000,
    }
    known = load_known(prop)
    tot = {
        i: {
            "paths": 0, "infeasible": 0, "exceptions": 0, "limits": 0,
            "unknown": 0, "partial": 0, "asserts": 0, "nonlinear": 0,
            "reached": set(), "queries": 0, "solver_s": 0.0, "decisions": 0,
            "unexplored": 0, "solver_unknown": 0, "cands": 0,
            "not_reproduced": 0,
        }
        for i in range(len(_CASES))
    }
    samples = collections.defaultdict(list)
    errors = collections.Counter()
    violations = []
    known_hit = {}
    stop_case = set()
    cand_q = queue.Queue()
    tried = collections.Counter()
    state = {"stop": False}

    def replay_loop():
        while True:
            item = cand_q.get()
            if item is None:
                return
            ci, cand = item
            case = _CASES[ci]
            kkey = (ci, cand["label"])
            if state["stop"] or tried[kkey] >= 12:
                continue
            tried[kkey] += 1
            ok = False
            last = None
            for ins in cand["inputs"]:
                job = {"module": module, "case": case.name, "inputs": ins,
                       "tier": tier}
                res = rep.run(job)
                last = res
                if reproduced(cand, res):
                    kf = match_known(known, case.name, res)
                    ok = True
                    if kf is not None:
                        known_hit[kf["id"]] = kf
                        continue
                    violations.append((case, cand, ins, res))
                    state["stop"] = True
                    break
            if not ok and cand.get("guess"):
                continue
            if not ok:
                # spurious under the exp/log/nonlinear abstraction: the path
                # is undecided; otherwise the encoding is wrong
                tot[ci]["not_reproduced" if cand.get("exact") or
                        cand.get("error") else "unknown"] += 1
                msg = "unreproduced %s/%s %s" % (
                    case.name, cand["label"], cand.get("error", ""))
                errors[msg + " | replay: %s" % (
                    (last or {}).get("error")
                    or (last or {}).get("status"))] += 1
                if os.environ.get("VERIF_DEBUG"):
                    print("DEBUG unreproduced", case.name, cand["label"],
                          cand.get("error"), cand.get("trace"),
                          cand["inputs"][:1], last and last.get("status"),
                          last and last.get("error"))

    pool = Pool(nw, work)
    th = threading.Thread(target=replay_loop, daemon=True)
    th.start()

    todo = collections.deque((i, [[]]) for i in range(len(_CASES)))
    while (todo or pool.busy) and not state["stop"]:
        if time.time() > deadline:
            break
        while todo and pool.idle:
            ci, pf = todo.popleft()
            if ci in stop_case:
                tot[ci]["unexplored"] += len(pf)
                continue
            o = dict(opts)
            o["slice"] = 0.15 if len(todo) + len(pool.busy) < nw else 1.0
            pool.submit((ci, pf, o))
        for job, r in pool.wait(1.0, 240 if tier == "quick" else 900):
            if r is None:  # worker lost
                tot[job[0]]["unexplored"] += len(job[1])
                errors["worker lost in %s" % _CASES[job[0]].name] += 1
                continue
            ci = r["case"]
            t = tot[ci]
            for k in ("paths", "infeasible", "exceptions", "limits",
                      "partial", "asserts", "nonlinear"):
                t[k] += r[k]
            t["unknown"] += len(r["unknown"])
            t["reached"].update(r["reached"])
            t["queries"] += r["stats"]["queries"]
            t["solver_s"] += r["stats"]["solver_s"]
            t["decisions"] += r["stats"]["decisions"]
            t["solver_unknown"] += r["stats"]["unknown"]
            t["cands"] += len(r["cands"])
            samples[ci].extend(r["samples"])
            for e in r["errors"]:
                errors[e] += 1
            for c in r["cands"] + r["guesses"][:2]:
                cand_q.put((ci, c))
            if t["cands"] > 400:
                stop_case.add(ci)
            rest = r["rest"]
            # split the remaining stack among the workers
            if rest:
                n = max(1, min(len(rest), 2 * nw if len(todo) < nw else 2))
                size = math.ceil(len(rest) / n)
                for k in range(0, len(rest), size):
                    todo.append((ci, rest[k:k + size]))
    for ci, pf in todo:
        tot[ci]["unexplored"] += len(pf)
    for _, job, _ in pool.busy.values():
        tot[job[0]]["unexplored"] += len(job[1])
    pool.close()
    cand_q.put(None)
    th.join()

    # validate the encoding: path models re-run on the real code
    nval = 0
    mism = []
    if not violations:
        rng = random.Random(seed)
        per = max(3, (48 if tier == "quick" else 240) // max(1, len(_CASES)))
        per = int(os.environ.get("VERIF_SAMPLES", per))
        for ci, ss in samples.items():
            for s in rng.sample(ss, min(per, len(ss))):
                res = rep.run({"module": module, "case": _CASES[ci].name,
                               "inputs": s["inputs"], "tier": tier})
                if res["status"] == "assume" or (
                        s["edge"] and res["status"] in ("fail", "diverged")):
                    continue
                if res["status"] != "ok":
                    # the compiled code breaks an assertion the encoding
                    # proved: a violation all the same, reported as such
                    mism.append((_CASES[ci].name, s["inputs"],
                                 res.get("error") or res["fails"]))
                    if res["status"] in ("fail", "exception") and \
                            match_known(known, _CASES[ci].name, res) is None:
                        violations.append((
                            _CASES[ci], {"label": "encoding-validation"},
                            s["inputs"], res))
                    continue
                bad = None
                if len(res["obs"]) == len(s["obs"]):
                    for (l1, v1), (l2, v2) in zip(s["obs"], res["obs"]):
                        if v1 is None or v2 is None:
                            continue
                        if isinstance(v2, str):
                            continue
                        if (v1 != v1 and v2 != v2) or v1 == v2:
                            continue
                        if not abs(v1 - v2) <= 1e-6 * (1 + abs(v2)):
                            bad = (l1, v1, v2)
                            break
                else:
                    bad = ("length", len(s["obs"]), len(res["obs"]))
                if bad and s["edge"]:
                    continue
                if bad:
                    mism.append((_CASES[ci].name, s["inputs"], bad))
                else:
                    nval += 1

    S = {k: sum(t[k] for t in tot.values()) for k in (
        "paths", "infeasible", "exceptions", "limits", "unknown", "partial",
        "asserts", "nonlinear", "queries", "solver_s", "decisions",
        "unexplored", "solver_unknown", "cands", "not_reproduced")}
    missing = {
        _CASES[i].name: [x for x in _CASES[i].must_reach
                         if x not in t["reached"]]
        for i, t in tot.items()
    }
    missing = {k: v for k, v in missing.items() if v}
    rc = 0
    replay_path = None
    if violations:
        case, cand, ins, res = violations[0]
        replay_path = os.path.join(evid, "replay", "%s-%s.json" % (
            prop, case.name))
        json.dump(
            {"property": prop, "module": module, "case": case.name,
             "tier": tier, "inputs": ins,
             "violated": res["fails"] or res.get("error"),
             "symbolic_label": cand["label"], "trace": res.get("trace"),
             "how": "VERIF_REPO=/repo /opt/venv/bin/python "
                    "/verif/engine/replay.py <this file>"},
            open(replay_path, "w"), indent=1, default=str)
        rc = 1
    undecided = S["unknown"] + S["not_reproduced"] + S["limits"]
    decided = S["paths"] - S["unknown"] - S["not_reproduced"]
    if rc == 0:
        for i, t in tot.items():
            ok_paths = t["paths"] - t["unknown"] - t["not_reproduced"]
            if ok_paths <= 0 and not (known_hit and any(
                    k["case"] == _CASES[i].name for k in known_hit.values())):
                rc = 3
                errors["case %s decided nothing" % _CASES[i].name] += 1
        if missing:
            rc = 3
        if S["not_reproduced"] or undecided > max(2, 0.05 * S["paths"]):
            rc = 2
        if mism:
            rc = 2
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": S["paths"],
            "transitions": S["decisions"],
            "traces_validated_against_impl": nval,
            "samples": [
                {"case": _CASES[ci].name, "inputs": s["inputs"]}
                for ci, ss in samples.items() for s in ss[:1]
            ][:8],
            "functions_encoded": getattr(mod, "FUNCTIONS", []),
            "cases": {
                _CASES[i].name: {
                    "bounds": _CASES[i].bounds,
                    "paths": t["paths"],
                    "infeasible_prefixes": t["infeasible"],
                    "assertions": t["asserts"],
                    "queries": t["queries"],
                    "solver_s": round(t["solver_s"], 2),
                    "nonlinear_paths": t["nonlinear"],
                    "concretised_paths": t["partial"],
                    "undecided": t["unknown"] + t["not_reproduced"]
                    + t["limits"],
                    "unexplored_prefixes": t["unexplored"],
                    "reached": sorted(t["reached"]),
                }
                for i, t in tot.items()
            },
            "queries": S["queries"],
            "solver_s": round(S["solver_s"], 2),
            "solver_unknown": S["solver_unknown"],
            "undecided_paths": undecided,
            "unexplored_prefixes": S["unexplored"],
            "concretised_paths": S["partial"],
            "counterexamples": S["cands"],
            "counterexamples_not_reproduced": S["not_reproduced"],
            "encoding_mismatches": [str(m)[:300] for m in mism[:5]],
            "n_encoding_mismatches": len(mism),
            "unreached": missing,
            "exhausted": S["unexplored"] == 0 and S["limits"] == 0,
            "notes": [
                "%dx %s" % (n, m[:300]) for m, n in errors.most_common(8)
            ],
            "explanation": "states = symbolic paths ended, transitions = "
            "branch decisions, each path's assertions discharged by z3 for "
            "all inputs on that path",
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON,
        "wall_s": round(time.time() - t_start, 2),
        "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(evid, prop + ".json"), "w"), indent=1,
              default=str)
    for k in known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print(
        "%s %s: paths=%d asserts=%d queries=%d solver=%.1fs validated=%d "
        "mismatch=%d undecided=%d unexplored=%d partial=%d wall=%.1fs" % (
            prop, tier, S["paths"], S["asserts"], S["queries"],
            S["solver_s"], nval, len(mism), undecided, S["unexplored"],
            S["partial"], time.time() - t_start))
    for m, n in errors.most_common(5):
        print("INCONCLUSIVE %dx %s" % (n, m[:600]))
    for m in mism[:3]:
        print("ENCODING-MISMATCH", str(m)[:600])
    if missing:
        print("UNREACHED", missing)
    if os.environ.get("VERIF_DEBUG"):
        for i, t in tot.items():
            print("  %-14s paths=%d asserts=%d q=%d t=%.1f nl=%d exc=%d unk=%d "
                  "part=%d unexp=%d cand=%d" % (
                      _CASES[i].name, t["paths"], t["asserts"], t["queries"],
                      t["solver_s"], t["nonlinear"], t["exceptions"],
                      t["unknown"], t["partial"], t["unexplored"],
                      t["cands"]))
    if violations:
        case, cand, ins, res = violations[0]
        print("violated: %s inputs=%s" % (
            res["fails"][:3] or res.get("error"), json.dumps(ins)[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
    return rc


COMMON = [
    "numbers are exact reals (decimal value of each float literal); an "
    "assertion counts as violated only beyond a margin of 1e-6 and only when "
    "the concrete run of the real code reproduces it",
    "numba-jitted functions are executed as the Python source they are "
    "compiled from; compiled behaviour is cross-checked by re-running path "
    "models on the JIT-compiled code",
    "numpy/math functions are modelled by engine/npshim.py; pydantic "
    "validation by engine/loader.py; time.sleep and print are no-ops",
]
