"""mutate.py gen OUT.json N SEED | test IN.json OUT.json | check IN.json OUT

Development aid: small changes to copies of /repo, which of them the tests let
pass, and which of those the checks see.  Works in /tmp/mut only.
"""
import ast
import json
import os
import random
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

REPO = "/repo"
FILES = ["cycle_count/cycle_count.py", "cycle_count/histogram.py",
         "cycle_count/rainflow.py", "cycle_count/utils.py",
         "damage/crack_growth.py", "damage/stress_life.py",
         "geometry/cylinder.py", "geometry/generic.py",
         "material/crack_growth_curve.py", "material/sn_curve.py",
         "mean_stress/corrections.py", "testing.py", "utils.py"]
SKIP = ("plot", "_plot", "__str__", "__repr__", "_repr", "format_str",
        "_format", "__make_axes", "make_axes")
CHECKS = {
    "cycle_count/cycle_count.py": "C06 C07 C08 C09 C10 C11 C12 C13 C22 C27 "
    "C28 C29 C30 C19 C16",
    "cycle_count/histogram.py": "C26 C09 C10 C06 C08",
    "cycle_count/rainflow.py": "C01 C02 C03 C04 C05 C06 C07",
    "cycle_count/utils.py": "C27 C12 C11",
    "damage/crack_growth.py": "C24 C19",
    "damage/stress_life.py": "C16 C17 C18 C32 C19",
    "geometry/cylinder.py": "C25 C24",
    "geometry/generic.py": "C25 C24",
    "material/crack_growth_curve.py": "C23 C24 C19 C29",
    "material/sn_curve.py": "C14 C15 C16 C29",
    "mean_stress/corrections.py": "C20 C21 C22",
    "testing.py": "C31",
    "utils.py": "C29 C26 C09 C06 C14 C23 C28",
}
SWAP = {"min": "max", "max": "min", "floor": "ceil", "ceil": "floor",
        "any": "all", "all": "any", "argmin": "argmax", "sum": "max",
        "insert": "append", "maximum": "minimum", "nanmax": "nanmin",
        "deepcopy": "copy", "hstack": "concatenate", "cumsum": "sort"}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Div,
       ast.Mod: ast.Mult}


def variants(n):
    """replacement texts for a node"""
    u = ast.unparse
    if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
        yield u(ast.Compare(n.left, [CMP[type(n.ops[0])]()] + n.ops[1:],
                            n.comparators))
    elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
        yield "(%s)" % u(ast.BinOp(n.left, BIN[type(n.op)](), n.right))
    elif isinstance(n, ast.BoolOp):
        o = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        yield "(%s)" % u(ast.BoolOp(o, n.values))
        yield u(n.values[0])
        yield u(n.values[-1])
    elif isinstance(n, ast.UnaryOp):
        yield "(%s)" % u(n.operand)
    elif isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            yield str(not n.value)
        elif isinstance(n.value, int):
            yield str(n.value + 1)
            if n.value > 0:
                yield str(n.value - 1)
        elif isinstance(n.value, float):
            yield repr(n.value * 1.25 + 0.125)
    elif isinstance(n, (ast.IfExp,)):
        yield u(n.body)
        yield u(n.orelse)
    elif isinstance(n, ast.Call):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ("copy", "ravel",
                                                      "sort_values"):
            yield u(f.value)
        if isinstance(f, (ast.Attribute, ast.Name)):
            a = f.attr if isinstance(f, ast.Attribute) else f.id
            if a in SWAP:
                g = (ast.Attribute(f.value, SWAP[a], ast.Load())
                     if isinstance(f, ast.Attribute)
                     else ast.Name(SWAP[a], ast.Load()))
                yield u(ast.Call(g, n.args, n.keywords))
            if a in ("abs", "absolute", "asarray", "array", "deepcopy",
                     "sorted", "unique", "reversed") and n.args:
                yield u(n.args[0])
        if n.keywords and not any(k.arg is None for k in n.keywords):
            for i in range(len(n.keywords)):
                yield u(ast.Call(f, n.args,
                                 n.keywords[:i] + n.keywords[i + 1:]))
        if len(n.args) == 2 and not n.keywords:
            yield u(ast.Call(f, n.args[::-1], []))


def collect(f):
    src = open("%s/py_fatigue/%s" % (REPO, f)).read()
    tree = ast.parse(src)
    out = []

    def visit(n, fn, skip):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + "." + n.name
            skip = skip or n.name.startswith(SKIP)
            for d in n.decorator_list:
                if "overload" in ast.unparse(d):
                    return
        if isinstance(n, (ast.Raise, ast.JoinedStr, ast.Assert)):
            if isinstance(n, ast.Raise) and not skip and fn:
                out.append((n, fn, "pass"))
            return
        if isinstance(n, ast.AnnAssign):
            for c in ast.iter_child_nodes(n):
                if c is not n.annotation:
                    visit(c, fn, skip)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Call) and "warn" in ast.unparse(n.func):
            return
        if fn and not skip:
            for v in variants(n) if isinstance(n, ast.expr) else ():
                out.append((n, fn, v))
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
                if "warn" not in ast.unparse(n):
                    out.append((n, fn, "pass"))
            if isinstance(n, (ast.If, ast.While)):
                out.append((n.test, fn, "not (%s)" % ast.unparse(n.test)))
                out.append((n.test, fn, "False"))
        for name, c in ast.iter_fields(n):
            if name in ("annotation", "returns", "decorator_list"):
                continue
            for x in c if isinstance(c, list) else [c]:
                if isinstance(x, ast.AST):
                    visit(x, fn, skip)

    visit(tree, "", False)
    lines = src.splitlines(True)
    pos = [0]
    for l in lines:
        pos.append(pos[-1] + len(l.encode()))
    raw = src.encode()
    res = []
    for n, fn, v in out:
        a = pos[n.lineno - 1] + n.col_offset
        b = pos[n.end_lineno - 1] + n.end_col_offset
        old = raw[a:b].decode()
        if old == v:
            continue
        new = raw[:a] + v.encode() + raw[b:]
        try:
            t = ast.parse(new.decode())
        except SyntaxError:
            continue
        if ast.dump(t) == ast.dump(tree):
            continue
        res.append({"file": f, "fn": fn.lstrip("."), "line": n.lineno,
                    "a": a, "b": b, "old": old, "new": v})
    return res


def gen(out, n, seed):
    ms = []
    for f in FILES:
        ms += collect(f)
    print(len(ms), "possible")
    random.Random(seed).shuffle(ms)
    per = {}
    pick = []
    for m in ms:
        k = (m["file"], m["fn"])
        if per.get(k, 0) < 14:
            per[k] = per.get(k, 0) + 1
            pick.append(m)
    pick = pick[:n]
    for i, m in enumerate(pick):
        m["id"] = i
    json.dump(pick, open(out, "w"), indent=1)
    print(len(pick), "picked")


def slot(k):
    d = "/tmp/mut/s%d" % k
    if not os.path.isdir(d):
        subprocess.run(["cp", "-a", REPO, d], check=True)
    subprocess.run(["git", "-C", d, "fetch", "-q", REPO, "HEAD"], check=True)
    subprocess.run(["git", "-C", d, "checkout", "-q", "-f", "FETCH_HEAD"],
                   check=True)
    return d


def apply(d, m):
    p = "%s/py_fatigue/%s" % (d, m["file"])
    raw = open(p, "rb").read()
    assert raw[m["a"]:m["b"]].decode() == m["old"]
    open(p, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])
    return p, raw


def env(d):
    e = dict(os.environ, PYTHONPATH=d, NUMBA_CACHE_DIR=d + ".numba",
             MPLBACKEND="Agg", CI="1", PYTHONHASHSEED="0",
             PYTHONDONTWRITEBYTECODE="1", NUMBA_NUM_THREADS="2",
             HYPOTHESIS_STORAGE_DIRECTORY=d + ".hyp")
    return e


def test(src, out, jobs=4, n="2"):
    ms = json.load(open(src))
    q = Queue()
    for k in range(jobs):
        q.put(slot(k))
    done = []

    def one(m):
        d = q.get()
        try:
            p, raw = apply(d, m)
            try:
                r = subprocess.run(
                    ["timeout", "-k", "5", "400", "/opt/venv/bin/python",
                     "-m", "pytest", "tests", "-q", "-x", "-p",
                     "no:cacheprovider", "--timeout=120", "-n", n],
                    cwd=d, env=env(d), stdout=subprocess.DEVNULL,
                    stderr=subprocess.DEVNULL)
            finally:
                open(p, "wb").write(raw)
            m["tests"] = r.returncode
        finally:
            q.put(d)
        if m["tests"] == 0:
            done.append(m)
            json.dump(done, open(out, "w"), indent=1)
        print(m["id"], m["file"], m["fn"], m["line"], m["tests"], flush=True)

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, ms))
    print(len(done), "of", len(ms), "pass the tests")


def check(src, out):
    ms = json.load(open(src))
    d = slot(9)
    res = json.load(open(out)) if os.path.exists(out) else []
    seen = {m["id"] for m in res}
    for m in ms:
        if m["id"] in seen:
            continue
        p, raw = apply(d, m)
        m["checks"] = {}
        try:
            for c in CHECKS[m["file"]].split():
                r = subprocess.run(
                    ["timeout", "-k", "5", "400", "/opt/venv/bin/python",
                     "check.py", c, "quick"], cwd="/verif",
                    env=dict(os.environ, VERIF_REPO=d),
                    capture_output=True, text=True)
                m["checks"][c] = r.returncode
                if r.returncode == 1:
                    break
        finally:
            open(p, "wb").write(raw)
        res.append(m)
        json.dump(res, open(out, "w"), indent=1)
        print(m["id"], m["file"], m["fn"], m["line"], repr(m["old"][:60]),
              "->", repr(m["new"][:60]), m["checks"], flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
    elif sys.argv[1] == "test":
        test(*sys.argv[2:4])
    else:
        check(*sys.argv[2:4])
