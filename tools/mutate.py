"""Mutation testing of the checks (development tool, not run by any check).
   mutate.py gen                 -> /tmp/mut/mutants.json
   mutate.py tests [procs]       -> /tmp/mut/survivors.json (mutants the repository's tests miss)
   mutate.py checks              -> /tmp/mut/results.json   (which check catches which survivor)"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

M = os.environ.get("MUT", "/tmp/mut")
FILES = os.environ.get("FILES", "abstract.py,heuristics.py,mixins.py,processes.py,structures.py,utils.py").split(",")
SKIP = ("debug", "logger", "hyperLogger", "add_annotation", "update_layout", "update_xaxes",
        "update_yaxes", "platform_os", "add_trace")


def skip(node):
    t = ast.unparse(node)
    return any(("%s" % s) in t for s in SKIP) and len(t) < 400


def gen():
    out = []
    for f in FILES:
        src = open("/repo/hyperpack/" + f).read()
        tree = ast.parse(src)
        nodes = list(ast.walk(tree))
        infn = {}
        for fn in nodes:
            if isinstance(fn, ast.FunctionDef):
                for x in ast.walk(fn):
                    infn[id(x)] = fn.name
        for i, nd in enumerate(nodes):
            fn = infn.get(id(nd))
            if fn is None or fn in ("__str__",):
                continue

            def add(desc, edit):
                t2 = copy.deepcopy(tree)
                n2 = list(ast.walk(t2))
                r = edit(n2[i], n2)
                if r is False:
                    return
                ast.fix_missing_locations(t2)
                try:
                    s2 = ast.unparse(t2)
                    compile(s2, f, "exec")
                except Exception:
                    return
                out.append({"file": f, "fn": fn, "line": getattr(nd, "lineno", 0), "desc": desc,
                            "src": s2})
            if isinstance(nd, ast.Compare) and len(nd.ops) == 1 and not skip(nd):
                alt = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.LtE],
                       ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
                       ast.IsNot: [ast.Is]}.get(type(nd.ops[0]), [])
                for a in alt:
                    def e(x, _n, a=a):
                        x.ops = [a()]
                    add("%s -> %s" % (ast.unparse(nd), a.__name__), e)
                if isinstance(nd.comparators[0], ast.Tuple) and len(nd.comparators[0].elts) == 2:
                    for j in (0, 1):
                        def e(x, _n, j=j):
                            del x.comparators[0].elts[j]
                        add("%s drop elt %d" % (ast.unparse(nd), j), e)
            if isinstance(nd, ast.BoolOp) and not skip(nd):
                def e(x, _n):
                    x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
                add("%s swap and/or" % ast.unparse(nd)[:100], e)
                for j in range(len(nd.values)):
                    def e(x, _n, j=j):
                        del x.values[j]
                        if len(x.values) == 1:
                            x.values.append(x.values[0])
                    add("%s drop operand %d" % (ast.unparse(nd)[:100], j), e)
            if isinstance(nd, ast.UnaryOp) and isinstance(nd.op, ast.Not) and not skip(nd):
                def e(x, _n):
                    x.op = ast.Not()
                    x.operand = ast.UnaryOp(op=ast.Not(), operand=x.operand)
                add("%s remove not" % ast.unparse(nd), e)
            if isinstance(nd, ast.Constant):
                v = nd.value
                if v is True or v is False:
                    def e(x, _n):
                        x.value = not x.value
                    add("const %s flip" % v, e)
                elif isinstance(v, int):
                    for dlt in (1, -1):
                        def e(x, _n, dlt=dlt):
                            x.value = x.value + dlt
                        add("const %s %+d" % (v, dlt), e)
                elif isinstance(v, float):
                    def e(x, _n):
                        x.value = x.value * 1.1
                    add("const %s *1.1" % v, e)
            if isinstance(nd, ast.BinOp) and not skip(nd):
                alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add,
                       ast.Div: ast.Mult}.get(type(nd.op))
                if alt:
                    def e(x, _n):
                        x.op = alt()
                    add("%s -> %s" % (ast.unparse(nd)[:80], alt.__name__), e)
            if isinstance(nd, (ast.If,)) and not skip(nd.test):
                for v in (True, False):
                    def e(x, _n, v=v):
                        x.test = ast.Constant(v)
                    add("if %s -> %s" % (ast.unparse(nd.test)[:90], v), e)
            if isinstance(nd, ast.IfExp):
                for v in (True, False):
                    def e(x, _n, v=v):
                        x.test = ast.Constant(v)
                    add("ifexp %s -> %s" % (ast.unparse(nd.test)[:90], v), e)
            if isinstance(nd, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.Break,
                               ast.Continue, ast.Return)) and not skip(nd):
                if isinstance(nd, ast.Expr) and isinstance(nd.value, ast.Constant):
                    continue

                def e(x, n2):
                    for p in n2:
                        for fld in ("body", "orelse", "finalbody"):
                            b = getattr(p, fld, None)
                            if isinstance(b, list) and x in b:
                                b[b.index(x)] = ast.Pass()
                                return True
                    return False
                add("delete %s" % ast.unparse(nd)[:100], e)
                if isinstance(nd, ast.Break):
                    def e(x, n2):
                        for p in n2:
                            for fld in ("body", "orelse"):
                                b = getattr(p, fld, None)
                                if isinstance(b, list) and x in b:
                                    b[b.index(x)] = ast.Continue()
                                    return True
                        return False
                    add("break -> continue", e)
            if isinstance(nd, ast.Call) and not skip(nd):
                t = ast.unparse(nd.func)
                if t.split(".")[-1] in ("deepcopy", "dict", "list", "_deepcopy_solution",
                                        "_copy_objective_val_per_container") and nd.args:
                    def e(x, n2):
                        a = x.args[0]
                        for p in n2:
                            for fld, val in ast.iter_fields(p):
                                if val is x:
                                    setattr(p, fld, a)
                                    return True
                        return False
                    add("uncopy %s" % ast.unparse(nd)[:80], e)
                if t in ("max", "min"):
                    def e(x, n2):
                        x.func = ast.Name("min" if t == "max" else "max", ast.Load())
                    add("%s swap" % ast.unparse(nd)[:80], e)
                for j in range(len(nd.keywords)):
                    def e(x, _n, j=j):
                        del x.keywords[j]
                    add("call %s drop kw %s" % (t, nd.keywords[j].arg), e)
    seen, res = set(), []
    for m in out:
        if (m["file"], m["src"]) not in seen:
            seen.add((m["file"], m["src"]))
            m["id"] = len(res)
            res.append(m)
    json.dump(res, open(M + "/mutants.json", "w"))
    print(len(res))


def place(m):
    d = "%s/w%d" % (M, m["id"])
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "docs", "__pycache__"))
    with open(d + "/hyperpack/" + m["file"], "w") as f:
        f.write(m["src"])
    return d


def test(m):
    d = place(m)
    env = {k: v for k, v in os.environ.items()}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=d)
    try:
        p = subprocess.run(["timeout", "-s", "KILL", "150", "/opt/venv/bin/python", "-m", "pytest", "-o",
                            "addopts=", "-q", "-x", "--disable-warnings", "-p", "no:cacheprovider",
                            "--timeout=60"], cwd=d, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        return m["id"], p.returncode == 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tests(procs):
    ms = json.load(open(M + "/mutants.json"))
    random.Random(7).shuffle(ms)
    surv = []
    with ThreadPoolExecutor(procs) as ex:
        for n, (i, ok) in enumerate(ex.map(test, ms)):
            if ok:
                surv.append(i)
            if n % 25 == 0:
                print(n, len(surv), flush=True)
                json.dump(surv, open(M + "/survivors.json", "w"))
    json.dump(surv, open(M + "/survivors.json", "w"))
    print("survivors", len(surv))


ORDER = {
    "abstract.py": ["P11", "P10", "P16", "P15", "P12", "P06"],
    "processes.py": ["P13", "P14", "P16", "P15"],
    "structures.py": ["P07", "P08", "P23", "P24", "P09", "P18", "P15", "P03"],
    "utils.py": ["P22"],
    "heuristics.py": ["P20", "P13", "P14", "P12", "P16", "P15", "P08", "P07", "P21", "P23", "P25", "P26",
                      "P06", "P09", "P03"],
    "mixins.py": ["P04", "P05", "P20", "P18", "P19", "P17", "P10", "P11", "P15", "P12", "P16",
                  "P03", "P09", "P06", "P13"],
}
FN = {"_generate_points": ["P05", "P04"], "_construct_solution": ["P04", "P05", "P03", "P01"],
      "_check_fitting": ["P04", "P01"], "_validate_figure_settings": ["P20"],
      "create_figure": ["P19"], "log_solution": ["P18"], "sort_items": ["P17"],
      "orient_items": ["P17"]}


def checks():
    ms = {m["id"]: m for m in json.load(open(M + "/mutants.json"))}
    surv = json.load(open(M + "/survivors.json"))
    path = M + "/results.json"
    res = json.load(open(path)) if os.path.exists(path) else {}
    skip = os.environ.get("SKIPFN", "").split(",")
    for i in surv:
        if str(i) in res or ms[i]["fn"] in skip:
            continue
        m = ms[i]
        d = place(m)
        hit = None
        log = []
        order = list(FN.get(m["fn"], []))
        order = order or ORDER[m["file"]]
        try:
            for p in order:
                env = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", PYTHONDONTWRITEBYTECODE="1",
                           VERIF_OUT=M + "/out")
                q = subprocess.run(["timeout", "-s", "KILL", "600", "/opt/venv/bin/python",
                                    "harness/check.py", p, "quick"], cwd=os.environ.get("V", "/verif"),
                                   env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if q.returncode == 1 and "VIOLATION" in q.stdout:
                    hit = p
                    log.append(q.stdout[-200:])
                    break
                if q.returncode != 0:
                    log.append("%s rc=%s %s" % (p, q.returncode, q.stdout[-600:]))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        res[str(i)] = {"hit": hit, "log": log, **{k: m[k] for k in ("file", "fn", "line", "desc")}}
        json.dump(res, open(path, "w"), indent=1)
        print(i, m["file"], m["fn"], m["line"], m["desc"], "=>", hit, [x for x in log if "rc=" in x][:1],
              flush=True)


if __name__ == "__main__":
    os.makedirs(M, exist_ok=True)
    a = sys.argv[1]
    if a == "gen":
        gen()
    elif a == "tests":
        tests(int(sys.argv[2]) if len(sys.argv) > 2 else 7)
    else:
        checks()
