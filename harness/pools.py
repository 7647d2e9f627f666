"""Recording of the strategy pool (P21) and of generated data (P22)."""
import contextlib
import io
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

import common
import gen
from common import SEED
from hyperpack import HyperPack, constants, generate_problem_data

def suffixes(strip):
    """the fixed suffix (strip packing has one of its own, either may be used)"""
    out = [HyperPack.STRATEGIES_SUFFIX]
    if strip:
        out.append(HyperPack.STRATEGIES_SUFFIX_STRIPACK)
    return codes(out)


CODE = {c: j + 1 for j, c in enumerate(gen.CLASSES)}


def codes(pool):
    return [[CODE.get(c, 0) for c in q] for q in pool]


def instance(r):
    its = {"i%d" % j: {"w": r.randint(1, 5), "l": r.randint(1, 5)} for j in range(r.randint(1, 4))}
    st = r.choice([{}, {"rotation": False}, {"workers_num": 3},
                   {"workers_num": r.choice([2, 17, 50, 257, 1000])}])
    strip = r.random() < 0.5
    if strip:
        p = HyperPack(items=its, strip_pack_width=r.randint(1, 9), settings=st)
    else:
        p = HyperPack(containers={"c%d" % j: {"W": 4, "L": 5} for j in range(r.randint(1, 3))},
                      items=its, settings=st)
    if r.random() < 0.4:
        p.potential_points_strategy = tuple(gen.strategy(r))
    if r.random() < 0.3:
        p.solve()
    return p, strip


def usable(p, pool):
    old = p.potential_points_strategy
    try:
        for s in pool:
            p.potential_points_strategy = s
        return True
    except Exception:
        return False
    finally:
        p.potential_points_strategy = old


def pool(n):
    r = gen.rng_for(SEED, "pool", n)
    p, strip = instance(r)
    s = list(p.get_strategies())
    out = [{"what": "pool", "pool": codes(s), "suffixes": suffixes(strip),
            "accepted": usable(p, s), "key": ["pool", n]}]
    q = list(p.get_strategies(_exhaustive=False))
    out.append({"what": "small", "pool": codes(q), "accepted": usable(p, q),
                "const": codes(constants.DEFAULT_POTENTIAL_POINTS_STRATEGY_POOL),
                "key": ["small", n]})
    return out


CHILD = """
import sys, json
sys.path.insert(0, %r)
from hyperpack import HyperPack
for kw in ({"containers": {"c": {"W": 3, "L": 3}}}, {"strip_pack_width": 4}):
    p = HyperPack(items={"i": {"w": 1, "l": 1}}, **kw)
    print(json.dumps(p.get_strategies()))
"""


def seeded(n):
    e = dict(os.environ, PYTHONHASHSEED=str(n + 1))
    o = subprocess.run([sys.executable, "-c", CHILD % common.REPO], env=e, text=True,
                       stdout=subprocess.PIPE, check=True).stdout.strip().split("\n")
    p, _ = instance(gen.rng_for("x"))
    out = []
    for j, line in enumerate(o):
        s = [tuple(x) for x in json.loads(line)]
        out.append({"what": "pool", "pool": codes(s), "accepted": usable(p, s),
                    "suffixes": suffixes(j == 1), "key": ["seed", n, j]})
    return out


def split(n, kind="split"):
    """which worker tries which strategy of the pool"""
    r = gen.rng_for(SEED, kind, n)
    workers = [2, 3, 5, 7, 8, 11, 13][n % 7] if kind == "split" else [1, 2, 1, 3][n % 4]
    strip = n % 3 == 0
    its = {"a": {"w": 1, "l": 1}, "b": {"w": 2, "l": 1}}
    st = {"workers_num": workers, "max_time_in_seconds": 600}
    if strip:
        p = HyperPack(items=its, strip_pack_width=5, settings=st)
        if r.random() < 0.3:
            p.container_min_height = 2
    else:
        p = HyperPack(containers={"c%d" % j: {"W": 9, "L": 9} for j in range(r.randint(1, 2))},
                      items=its, settings=st)
    if r.random() < 0.3:
        p.potential_points_strategy = tuple(gen.strategy(r))
    kw = {}
    if kind == "tried":
        kw = r.choice([{}, {"_exhaustive": True}, {"_exhaustive": False}, {"_exhaustive": False}])
    want = [tuple(s) for s in p.get_strategies(**kw)]
    num = {}
    for s in want:  # the constant pool may name a strategy twice
        num.setdefault(s, len(num) + 1)
    d = tempfile.mkdtemp(prefix="split")
    orig = HyperPack.local_search

    def ls(self, **kw):
        with open(os.path.join(d, str(os.getpid())), "a") as f:
            f.write("%d\n" % num.get(tuple(self.potential_points_strategy), 0))
        # the plain solution stays the best one
        self.solution, self.obj_val_per_container = {c: {} for c in self.containers}, \
            {c: 0 for c in self.containers}
    HyperPack.local_search = ls
    try:
        p.hypersearch(throttle=r.random() < 0.5, **kw)
        parts = []
        for f in sorted(os.listdir(d), key=int):
            with open(os.path.join(d, f)) as fh:
                parts.append([int(x) for x in fh])
    finally:
        HyperPack.local_search = orig
        shutil.rmtree(d, ignore_errors=True)
    return [{"what": kind, "n": len(want), "want": [num[s] for s in want], "parts": parts,
             "workers": workers, "key": [kind, n]}]


def tried(n):
    return split(n, "tried")


def generated(n):
    r = gen.rng_for(SEED, "gen", n)
    big = r.random() < 0.5
    m = r.choice([1, 2, 3, 5, 10, 15, 25, 100, 1000]) if big else r.randint(1, 60)
    g = {"cn": r.choice([1, 1, 2, 3, 5]), "n": r.choice([1, 2, 5, 30, 30, 1500 if r.random() < 0.1 else 70]), "cw": r.randint(1, m),
         "cl": r.choice([r.randint(1, m), 5, 15, 25]), "iw": r.choice([r.randint(1, m), 1, 2, 3]),
         "il": r.randint(1, m)}
    dft = {"cn": 1, "n": 30, "cw": 50, "cl": 50, "iw": 5, "il": 3}
    kw = {}
    for f, name in (("cn", "containers_num"), ("n", "items_num"), ("cw", "containers_width"),
                    ("cl", "containers_length"), ("iw", "items_width"), ("il", "items_length")):
        if r.random() < 0.12:
            g[f] = dft[f]
        else:
            kw[name] = g[f]
    random.seed("%s-%s" % (SEED, n))
    with contextlib.redirect_stdout(io.StringIO()):
        d = generate_problem_data(**kw)
    keys = set(d) == {"containers", "items"} and \
        all(set(x) == {"W", "L"} for x in d["containers"].values()) and \
        all(set(x) == {"w", "l"} for x in d["items"].values()) and \
        all(isinstance(v, int) for q in d.values() for x in q.values() for v in x.values())
    ok = True
    try:
        HyperPack(**d)
    except Exception:
        ok = False
    return [{"what": "gen", "given": g, "accepted": ok, "keys": keys,
             "conts": [[x.get("W", -1), x.get("L", -1)] for x in d["containers"].values()],
             "items": [[x.get("w", -1), x.get("l", -1)] for x in d["items"].values()],
             "key": ["gen", n]}]


def run(a):
    return {"pool": pool, "seed": seeded, "split": split, "tried": tried, "gen": generated}[a[0]](a[1])


def error_case(key, err):
    return {"what": "error", "err": err[:1500], "key": key}
