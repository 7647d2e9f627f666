"""P06: the same abstract problem in many contexts."""
import contextlib
import json
import logging
import os
import subprocess
import sys

import campaigns
import common
import gen
import rec
from common import SEED
import hyperpack
from hyperpack import HyperPack, PointGenPack

FOLDER = os.path.dirname(os.path.abspath(hyperpack.__file__))


def outcome(p, pb):
    num = {x: j + 1 for j, x in enumerate(pb["ids"])}
    cn = {x: j + 1 for j, x in enumerate(rec.cont_ids(pb))}
    return json.dumps([
        [[cn.get(c, repr(c)), [[num.get(i, repr(i)), list(v)] for i, v in s.items()]]
         for c, s in p.solution.items()],
        [[cn.get(c, repr(c)), repr(v)] for c, v in p.obj_val_per_container.items()]])


def problem_of(n, small=False):
    r = gen.rng_for(SEED, "det", n, small)
    pb = gen.problem(r, size=r.choice([3, 4, 6, 8, 10]), kmax=6 if small else 10)
    if small:
        for f in ("items", "seq", "ids"):
            pb[f] = pb[f][:5]
        pb["seq"] = list(range(1, len(pb["items"]) + 1))
    return r, pb


def renamed(r, pb):
    q = dict(pb)
    names = ["n%03d" % x for x in r.sample(range(900), len(pb["ids"]))]
    q["ids"] = names
    q["cids"] = ["m%03d" % x for x in r.sample(range(900), len(pb["cids"]))]
    return q


def restore(p, pb):
    """bring the instance back to the problem pb"""
    p.settings = {"rotation": pb["rot"]}
    p.potential_points_strategy = tuple(pb["strat"])
    if pb["strip"]:
        p.reset_container_height()
        p.container_height = pb["conts"][0]["L"]


@contextlib.contextmanager
def verbose():
    """everything is logged, to nowhere"""
    logs = [logging.getLogger(x) for x in ("hyperpack", "pointgenpack")]
    old = [logging.root.manager.disable] + [(x.level, x.propagate) for x in logs]
    h = logging.NullHandler()
    h.setLevel(1)
    logging.disable(logging.NOTSET)
    for x in logs:
        x.setLevel(1)
        x.propagate = False
        x.addHandler(h)
    try:
        yield
    finally:
        logging.disable(old[0])
        for x, (a, b) in zip(logs, old[1:]):
            x.setLevel(a)
            x.propagate = b
            x.removeHandler(h)


class Between(campaigns.Few):
    """other instances work between the candidates of this one"""
    other = None

    def evaluate_node(self, sequence):
        self.others()
        super().evaluate_node(sequence)
        self.others()

    def others(self):
        if self.other is not None and self.other[0].random() < 0.2:
            r, q = self.other
            act = r.choice([q.solve, q.solve, q.local_search, q.hypersearch])
            act()


class During:
    """something happens at the n-th step inside the package"""

    def __init__(self, at, what):
        self.n, self.at, self.what = 0, at, what

    def call(self, fr, event, arg):
        return self.line if os.path.dirname(fr.f_code.co_filename) == FOLDER else None

    def line(self, fr, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.at:
                sys.settrace(None)
                self.what()
                sys.settrace(self.call)
        return self.line

    def run(self, act):
        old = sys.gettrace()
        sys.settrace(self.call)
        try:
            act()
        finally:
            sys.settrace(old)


def disturbed(r, pb, seq):
    """a solve in whose middle another instance solves"""
    p, q, o = rec.build(pb), rec.build(pb), rec.build(problem_of(r.randrange(10 ** 6))[1])
    d = During(0, None)
    d.run(lambda: q.solve(sequence=seq))
    if r.random() < 0.3:
        o = q
    d = During(r.randint(1, max(d.n, 1)), o.solve)
    d.run(lambda: p.solve(sequence=seq))
    return p


def contexts(n):
    """runs of one problem within this process: [(ctx, pb, instance)]"""
    r, pb = problem_of(n)
    ids = lambda q: [q["ids"][j - 1] for j in q["seq"]]  # noqa: E731
    runs, cases = [], []

    def add(ctx, q, p):
        runs.append({"ctx": ctx, "out": outcome(p, q)})
        sol, util, err = rec.snapshot(p, q)
        cases.append(rec.case(q, sol, util, err, key=["ctx", n, ctx]))

    p = rec.build(pb)
    p.solve(sequence=ids(pb))
    add("fresh", pb, p)
    p.solve(sequence=rec.form(ids(pb), 1 + n))
    add("repeated", pb, p)
    q = renamed(r, pb)
    p2 = rec.build(q)
    p2.solve(sequence=ids(q))
    add("renamed", q, p2)
    p2.solve()
    if n % 2:
        add("while another instance solves", pb, disturbed(r, pb, ids(pb)))
        p4 = rec.build(pb, cls=PointGenPack)
        p4.solve(sequence=ids(pb))
        add("PointGenPack", pb, p4)
    else:
        p4 = rec.build(pb)
        with verbose():
            p4.solve(sequence=ids(pb), debug=True)
        add("debugging", pb, p4)
        p4.solve(sequence=ids(pb))
        add("after debugging", pb, p4)
    p.solve(sequence=ids(pb))
    add("after another instance", pb, p)
    # other operations on the instance, undone as far as they change the problem
    ops = r.sample(["ls", "hs", "item", "cont", "strategy", "rotation", "height", "bad", "sort",
                    "solve-other", "raise", "additem", "debug"], 4)
    saved_items = {i: dict(p.items[i]) for i in p.items}
    for op in ops:
        if op == "ls" and len(pb["ids"]) <= 7:
            p.local_search()
        elif op == "hs" and len(pb["ids"]) <= 6:
            p.__class__ = campaigns.Few
            p.few = [tuple(gen.strategy(r, "perm")) for _ in range(2)]
            p.hypersearch()
            p.__class__ = HyperPack
        elif op == "item":
            i = r.choice(pb["ids"])
            p.items[i] = {"w": 1 + r.randrange(5), "l": 1 + r.randrange(5)}
            p.solve()
        elif op == "additem":
            p.items["extra!"] = {"w": 1, "l": 2}
            p.solve()
        elif op == "cont" and not pb["strip"]:
            c = pb["cids"][0]
            d = dict(pb["conts"][0])
            p.containers[c] = {"W": 1 + r.randrange(9), "L": 1 + r.randrange(9)}
            p.solve()
            p.containers[c] = d
        elif op == "strategy":
            p.potential_points_strategy = tuple(gen.strategy(r))
            p.solve()
        elif op == "rotation":
            p.settings = {"rotation": not pb["rot"]}
            p.solve()
        elif op == "height" and pb["strip"]:
            p.container_height = 1 + r.randrange(9)
            p.solve()
        elif op == "bad":
            for bad in ({"w": 0, "l": 1}, {"w": 1}, None):
                try:
                    p.items[pb["ids"][0]] = bad
                except Exception:
                    pass
        elif op == "sort":
            p.sort_items(("perimeter", False))
            p.orient_items("long")
            p.solve()
        elif op == "solve-other":
            s = list(p.items)
            r.shuffle(s)
            p.solve(sequence=s[: r.randint(1, len(s))])
        elif op == "debug":
            p.solve(sequence=r.choice([None, list(p.items)[:1]]), debug=True)
        elif op == "raise":
            try:
                p.solve(sequence=["no such item"])
            except Exception:
                pass
    p.items = saved_items
    restore(p, pb)
    p.solve(sequence=ids(pb))
    add("after " + ",".join(ops), pb, p)
    q = renamed(r, pb)
    p3 = rec.build(q)
    p3.solve(sequence=rec.form(ids(q), 1))
    add("fresh after history", q, p3)
    return runs, cases


def stir(p, r, pb):
    """searches on changed versions of the problem, then the problem again"""
    for _ in range(r.randint(1, 3)):
        for _ in range(r.randint(1, 2)):
            op = r.choice(["item", "dim", "turn", "cont", "cdim", "rot", "strat", "height", "minh",
                           "swap"])
            i = r.choice(pb["ids"])
            if op == "item":
                p.items[i] = {"w": r.randint(1, 6), "l": r.randint(1, 6)}
            elif op == "dim":
                p.items[i][r.choice("wl")] = r.randint(1, 6)
            elif op == "turn":
                d = p.items[i]
                d["w"], d["l"] = d["l"], d["w"]
            elif op == "swap" and len(pb["ids"]) > 1:
                j = r.choice([x for x in pb["ids"] if x != i])
                a, b = dict(p.items[i]), dict(p.items[j])
                p.items[i], p.items[j] = b, a
            elif op == "rot":
                p.settings = {"rotation": r.random() < 0.5}
            elif op == "strat":
                p.potential_points_strategy = tuple(gen.strategy(r, "perm"))
            elif pb["strip"]:
                if op == "minh":
                    p.container_min_height = r.randint(1, p.container_height)
                else:
                    p.reset_container_height()
                    p.container_height = r.randint(1, 4 * pb["conts"][0]["L"] + 1)
            elif op == "cont":
                p.containers[r.choice(pb["cids"])] = {"W": r.randint(1, 9), "L": r.randint(1, 9)}
            elif op == "cdim":
                p.containers[r.choice(pb["cids"])][r.choice("WL")] = r.randint(1, 9)
        what = r.choice(["ls", "ls", "hs", "solve"])
        if what == "ls":
            p.local_search()
        elif what == "hs":
            p.hypersearch(orientation=None, sorting_by=None)
        else:
            p.solve()
    # back to the problem, element by element
    for j, i in enumerate(pb["ids"]):
        if dict(p.items[i]) != pb["items"][j]:
            if r.random() < 0.5:
                p.items[i] = dict(pb["items"][j])
            else:
                p.items[i]["w"], p.items[i]["l"] = pb["items"][j]["w"], pb["items"][j]["l"]
    if not pb["strip"]:
        for j, c in enumerate(pb["cids"]):
            if dict(p.containers[c]) != pb["conts"][j]:
                p.containers[c] = dict(pb["conts"][j])
    restore(p, pb)


def search_runs(n, kinds=("ls", "hs", "ls2", "hs2", "ls3", "hs3", "lsr", "lsb", "hsb",
                         "lsd")):
    """searches, not cut short, in fresh and used instances"""
    r, pb = problem_of(n, small=True)
    few = [tuple(gen.strategy(r, r.choice(["perm", "first"]))) for _ in range(3)]
    out = {}
    for kind in kinds:
        q = pb
        if kind == "lsr":
            q = renamed(r, pb)
        p = rec.build(q, cls=Between if kind.endswith("b") else campaigns.Few)
        p.few = few
        if kind.endswith("3"):
            stir(p, r, q)
        if kind.endswith("2"):
            p.solve()
            p.local_search()
            p.items[q["ids"][0]] = dict(q["items"][0])
            restore(p, q)
        if kind.endswith("b"):
            o = rec.build(problem_of(r.randrange(10 ** 6), small=True)[1], cls=campaigns.Few)
            o.few = few[::-1][:1]
            p.other = (r, o)
        if kind == "lsd":
            with verbose():
                p.local_search(debug=True)
        elif kind.startswith("ls"):
            p.local_search()
        else:
            p.hypersearch(orientation=None, sorting_by=("perimeter", True))
        out[kind] = outcome(p, q)
        if kind.startswith("hs"):
            out[kind] += repr(getattr(p, "best_strategy", None) and list(p.best_strategy))
    return out


def full_hypersearch(n):
    """the real pool of 720 strategies on a tiny problem"""
    r = gen.rng_for(SEED, "det-full", n)
    pb = gen.problem(r, size=r.choice([4, 5, 6]), kmax=3, fam=r.choice(["mix", "big", "thin"]))
    for f in ("items", "seq", "ids"):
        pb[f] = pb[f][:3]
    pb["seq"] = list(range(1, len(pb["items"]) + 1))
    p = rec.build(pb)
    p.hypersearch()
    return outcome(p, pb) + repr(list(p.best_strategy))


def one_in_child(job):
    what, n = job
    if what == "ctx":
        r, pb = problem_of(n)
        p = rec.build(pb)
        p.solve(sequence=[pb["ids"][j - 1] for j in pb["seq"]])
        return outcome(p, pb)
    if what == "search":
        return search_runs(n, ("ls", "hs"))
    return full_hypersearch(n)


def child_main():
    """run in a fresh interpreter with another hash seed"""
    common.quiet()
    jobs = json.loads(sys.stdin.read())
    res = []
    for j in jobs:
        r, err = common.guarded(one_in_child, j, 60)
        res.append([r, err])
    json.dump(res, sys.stdout)


def in_child(a):
    seed, jobs = a
    env = dict(os.environ, PYTHONHASHSEED=str(seed))
    p = subprocess.run([sys.executable, os.path.abspath(__file__)], input=json.dumps(jobs),
                       capture_output=True, text=True, env=env, timeout=600)
    if p.returncode:
        raise RuntimeError(p.stderr[-1500:])
    return json.loads(p.stdout)


if __name__ == "__main__":
    child_main()
