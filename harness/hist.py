"""Recording of histories of operations on one instance (P07-P09, P17)."""
import copy
import json
import os
import pickle
import sys

import campaigns
import common
import gen
import logs
import lsrec
import rec
from common import SEED
import hyperpack  # noqa: E402

BAD = [0, -1, -7, 2.0, 1.5, "3", None, [2]]
NONSTR = [3, None, 2.5, ("a",), True, b"n1"]


class Rec:
    """the recorder of one history"""

    def __init__(self, r, ids):
        self.r = r
        self.rank = {x: i + 1 for i, x in enumerate(sorted(ids))}
        self.texts = lsrec.Ids()
        self.st, self.steps = [], []
        self.handles, self.olds = [], []

    def fp(self, x):
        return self.texts.of(x)

    def entries(self, s, w, l, strip):
        out = []
        for i, d in s.items():
            if sorted(d) != sorted([w, l]) or not all(rec.is_int(v) for v in d.values()):
                out.append([self.rank.get(i, -1), -1, -1])
                continue
            b = d[l]
            if strip:
                b = 1 if b == 2 ** 100 else 2
            out.append([self.rank.get(i, -1), min(d[w], 10 ** 6), min(b, 10 ** 6)])
        return out

    def sol(self, p):
        if not getattr(p, "solution", None):
            return 0
        return self.fp(lsrec.sol_text(p.solution, p.obj_val_per_container))

    def state(self, p):
        strip = self.strip
        self.st.append({
            "items": self.entries(p.items, "w", "l", False),
            "conts": self.entries(p.containers, "W", "L", strip), "strip": strip,
            "h": self.h(p.container_height) if strip else 0,
            "minh": self.h(p.container_min_height) if strip and p.container_min_height is not None
            else 0,
            "sol": self.sol(p), "obj": 1 if getattr(p, "obj_val_per_container", None) else 0,
            "set": self.fp(json.dumps(p.settings, sort_keys=True)),
            "strat": self.fp(repr(p.potential_points_strategy))})

    @staticmethod
    def h(x):
        return min(x, 10 ** 6) if rec.is_int(x) else -5


def dims(r, w, l, bad=0.25):
    """(python value, its normalised form)"""
    x = r.random()
    if x < bad:
        kind = r.choice(["other", "none", "empty", "missing", "extra", "wrong", "badval", "badval",
                         "badval"])
        a, b = r.randint(1, 8), r.randint(1, 8)
        if kind == "other":
            return r.choice([[a, b], 5, "wl", (("w", 1), ("l", 2))]), {"kind": "other", "kv": []}
        if kind == "none":
            return None, {"kind": "other", "kv": []}
        if kind == "empty":
            return {}, {"kind": "dict", "kv": []}
        if kind == "missing":
            return {w: a}, {"kind": "dict", "kv": [[1, a]]}
        if kind == "extra":
            return {w: a, l: b, "z": 3}, {"kind": "dict", "kv": [[1, a], [2, b], [0, 3]]}
        if kind == "wrong":
            return {w.swapcase(): a, l: b}, {"kind": "dict", "kv": [[0, a], [2, b]]}
        v = r.choice(BAD)
        if r.random() < 0.5:
            return {w: v, l: b}, {"kind": "dict", "kv": [[1, -99], [2, b]]}
        return {l: b, w: v} if r.random() < 0.5 else {w: a, l: v}, \
            {"kind": "dict", "kv": [[1, -99], [2, b]]}
    a, b = r.randint(1, 8), r.randint(1, 8)
    d = {w: a, l: b} if r.random() < 0.7 else {l: b, w: a}
    return d, {"kind": "dict", "kv": [[1, a], [2, b]]}


def run(a):
    kind, n = a
    r = gen.rng_for(SEED, kind, n)
    common.vclock.active = False
    calm, near = kind == "hist-calm", kind == "hist-near"
    if calm:
        pb = gen.problem(r, size=r.choice([6, 8, 10, 12]), kmax=10)
    elif near:
        pb = near_equal(r)
    else:
        pb = gen.problem(r, size=r.choice([3, 4, 5, 6, 8]), kmax=5)
    top = 10 if calm else 7 if near else 5
    for f in ("items", "seq", "ids"):
        pb[f] = pb[f][:top]
    if kind == "hist-strip":
        pb["strip"] = True
        pb["conts"] = pb["conts"][:1]
    strip = pb["strip"]
    cids = rec.cont_ids(pb)[:1] if strip else pb["cids"]
    names = list(pb["ids"]) + ["new-1", "A", "zz", "Z9"] + list(cids) + ["c-x", "k", "0k"]
    names = list(dict.fromkeys(names))
    R = Rec(r, names)
    R.strip, R.kinds, R.sols, R.key = strip, WEIGHTS.get(kind), [], [kind, n]
    w0, l0 = ("W", "L")
    its = {pb["ids"][j]: dict(d) for j, d in enumerate(pb["items"])}
    # short times matter on the virtual clock, where each candidate takes time
    R.times = [1, 2, 4, 600] if kind in ("hist-cut", "hist-calm") else [600]
    st = {"rotation": pb["rot"], "max_time_in_seconds": r.choice(R.times)}
    given = [its, st]
    if strip:
        p = campaigns.Few(items=its, strip_pack_width=pb["conts"][0]["W"], settings=st)
    else:
        cs = {pb["cids"][j]: dict(c) for j, c in enumerate(pb["conts"])}
        p = campaigns.Few(containers=cs, items=its, settings=st)
        given.append(cs)
    p.few = [tuple(gen.strategy(r, "perm")) for _ in range(2)]
    p.takes = 0.25 if len(R.times) > 1 else 0
    R.olds = [[x, json.dumps(x)] for x in given]
    R.state(p)
    stepno = r.randint(4, 14)
    for _ in range(stepno):
        step(R, p, pb, names, r)
        R.state(p)
    out = {"default": R.fp(repr(gen.CLASSES)), "st": R.st, "steps": R.steps, "err": "none", "key": [kind, n]}
    if R.sols:
        out["sols"] = R.sols
    return out


WEIGHTS = {
    # the data stays, everything else changes between searches
    "hist-calm": ["solve"] * 6 + ["ls"] * 3 + ["hs"] * 2 + ["settings"] * 6 + ["strategy"] * 4 +
    ["height"] * 3 + ["minheight", "reset", "orient", "sort", "read"],
    "hist-read": ["read"] * 5 + ["mutate", "mutate","setentry", "setdim", "delentry", "update", "assign", "pop",
                                 "setdefault", "sort", "orient", "solve", "ls", "dimupdate",
                                 "height", "reset", "settings"],
    "hist-strat": ["strategy"] * 8 + ["delstrategy", "solve", "solve", "ls", "hs", "hs", "settings",
                                      "setdim", "assign", "sort", "reset", "height", "read"],
    # interrupted operations
    "hist-cut": ["cut"] * 6 + ["solve"] * 3 + ["ls", "ls", "hs", "badsolve", "setdim", "height",
                               "reset", "strategy", "settings", "sort", "setentry", "minheight"],
    # orders
    "hist-near": ["sort"] * 8 + ["orient"] * 4 + ["setdim"] * 2 + ["solve", "hs", "assign"]}


def odd_strategy(r, v, p):
    x = list(v)
    k = r.choice(["list", "str", "none", "dup", "unknown", "nonstr", "nested", "set", "iter",
                  "empty", "short", "all", "twice", "same", "lower"])
    at = r.randint(0, len(x))
    if k in ("dup", "twice"):
        x[at:at] = [r.choice(x or ["A", "A"])] if k == "dup" else x or ["B", "B"]
    elif k == "unknown":
        x[at:at] = [r.choice(["O", "G", "A'", "A___", "_A", " A", "A ", "AB", "", "C_", "D_", "a"])]
    elif k == "lower":
        x = [e.lower() for e in x]
    elif k == "nonstr":
        x[at:at] = [r.choice([None, 1, 0, True, ["A"], {"A": 1}, b"A", 2.5])]
    elif k == "nested":
        x[at:at] = [("A", "B")]
    elif k == "same":
        return p.potential_points_strategy
    elif k == "short":
        x = x[:1]
    elif k == "empty":
        x = []
    elif k == "all":
        x = list(gen.CLASSES)[::-1]
    elif k != "all":
        return {"list": x, "str": "".join(x), "none": None, "set": set(x), "iter": iter(x)}[k]
    return tuple(x)


def near_equal(r):
    """items with equal and nearly equal areas, perimeters and ratios"""
    m = r.choice([12, 60, 150, 300])
    its = []
    for _ in range(r.randint(2, 7)):
        a, b = r.choice(its) if its and r.random() < 0.8 else (r.randint(1, m), r.randint(1, m))
        how = r.choice(["same", "turn", "area", "perimeter", "ratio", "step", "step"])
        d = r.choice([-2, -1, 1, 2])
        if how == "turn":
            a, b = b, a
        elif how == "area":
            q = r.choice([x for x in range(1, m + 1) if a * b % x == 0])
            a, b = q, a * b // q
        elif how == "perimeter":
            a, b = a + d, b - d
        elif how == "ratio":
            a, b = r.choice([(2 * a, 2 * b), (3 * a, 3 * b), (a + a + 1, b + b), (a + d, b + d)])
        elif how == "step":
            a, b = a + d, b
        its.append((max(1, a), max(1, b)))
    pb = gen.problem(r, size=10, kmax=3)
    n = len(its)
    pb.update(items=[{"w": x, "l": y} for x, y in its], seq=list(range(1, n + 1)),
              ids=gen.IDS[r.randrange(len(gen.IDS))](n, r))
    return pb


class Cut(KeyboardInterrupt):
    pass


class Cutter:
    """interrupts an operation at the n-th step taken inside the construction
    and evaluation of solutions"""
    FOLDER = os.path.dirname(os.path.abspath(hyperpack.__file__))
    HERE = os.path.abspath(__file__)
    INNER = "_construct_solution"  # works on copies only

    def __init__(self):
        self.n, self.at, self.error = 0, 0, Cut

    def step(self):
        self.n += 1
        if self.n == self.at:
            raise self.error("interrupted")

    def ours(self, fr):
        return os.path.dirname(fr.f_code.co_filename) == self.FOLDER

    def call(self, fr, event, arg):
        if not self.ours(fr):
            return None
        if fr.f_code.co_name in ("solve", "evaluate_node"):
            self.step()
            return None
        b = fr
        while b is not None and b.f_code.co_filename != self.HERE:
            if b.f_code.co_name == self.INNER and self.ours(b):
                return self.line
            b = b.f_back
        return None

    def line(self, fr, event, arg):
        if event == "line":
            self.step()
        return self.line

    def run(self, act, p):
        old = sys.gettrace()
        sys.settrace(self.call)
        try:
            act(p)
        finally:
            sys.settrace(old)


def solution_now(R, p):
    """the current solution, to be validated by SolutionTrace"""
    q = {"strip": R.strip, "rot": p.settings.get("rotation", True),
         "strat": list(p.potential_points_strategy), "ids": list(p.items),
         "cids": list(p.containers),
         "items": [{"w": d["w"], "l": d["l"]} for d in p.items.values()]}
    if R.strip:
        q["conts"] = [{"W": p.containers["strip-pack-container"]["W"], "L": p.container_height}]
    else:
        q["conts"] = [{"W": d["W"], "L": d["L"]} for d in p.containers.values()]
    q["seq"] = list(range(1, len(q["ids"]) + 1))
    return campaigns.sol_case(p, q, R.key + [len(R.steps)])


def read(R, p, r, names, op):
    """everything the instance tells about its data"""
    op.update(views=[], lens=[], has=[], no=[], seqs=[])
    clone = r.choice([copy.deepcopy, lambda x: pickle.loads(pickle.dumps(x))])(p)
    op["clone"] = R.sol(clone)
    for t, S, w, l in (("items", p.items, "w", "l"), ("conts", p.containers, "W", "L")):
        strip = R.strip and t == "conts"

        def view(name, d):
            op["views"].append({"t": t, "name": name, "q": R.entries(d, w, l, strip)})
        view("items", {i: dict(d) for i, d in S.items()})
        view("iter", {i: {w: S[i][w], l: S[i][l]} for i in S})
        view("values", dict(zip(S.keys(), S.values())))
        view("dict", dict(S))
        view("stars", {**S})
        view("get", {i: {x: S.get(i).get(x) for x in S[i].keys()} for i in list(S)})
        view("dims", {i: dict(S[i].items()) for i in S})
        view("deepcopy", S.deepcopy())
        view("copy", S.copy())
        view("dimcopy", {i: S[i].copy() for i in S})
        view("clone", dict(getattr(clone, "items" if t == "items" else "containers")))
        try:
            back = list(reversed(S))
        except TypeError:  # as the interpreter has it
            back = list(S)[::-1]
        view("reversed", {i: S[i] for i in back[::-1]})
        want = {i: {w: S[i][w], l: S[i][l]} for i in S}
        op["no"].append(not (S == want) or S != want or S == {} or S == dict(want, **{"\x01none": {w: 1, l: 1}}))
        if not strip:
            view("str", of_text(str(S), "Items" if t == "items" else "Containers", w, l))
        op["lens"] += [[t, len(S)], [t, len(S.keys())], [t, len(list(S.values()))],
                       [t, len(S) if bool(S) else -1]]
        ids = [i for i in S if r.random() < 0.5]
        r.shuffle(ids)
        op["seqs"].append({"t": t, "ids": [R.rank[i] for i in ids],
                           "q": R.entries(S.deepcopy(ids), w, l, strip)})
        for i in names:
            try:
                S[i]
                found = True
            except KeyError:
                found = False
            op["has"].append([t, R.rank[i], i in S, found, S.get(i) is not None, i in S.keys()])
        ids = list(S)
        for i in [1, 0, None, 2.5, ("a",), True, b"a", ""] + [x.encode() for x in ids[:2]] + \
                [x for i in ids for x in (i.upper(), i.lower(), i + " ", i[:-1])] + \
                [int(x) for x in ids if x.isdigit() and x.isascii()]:
            if i in ids:
                continue
            try:
                S[i]
                found = True
            except KeyError:
                found = False
            op["no"].append(i in S or found or S.get(i) is not None or i in S.keys())
    op["sol"] = R.sol(p)
    op["copy"] = R.fp(lsrec.sol_text(*p.get_solution())) if op["sol"] else 0
    # the clone goes its own way
    clone.sort_items()
    clone.solve()
    clone.items["cl"] = {"w": 1, "l": 1}
    if not R.strip:
        clone.containers["cl"] = {"W": 1, "L": 1}
    clone.local_search()


def of_text(text, head, w, l):
    lines = text.split("\n")
    out = {}
    if lines[0] != head:
        return {"": {}}
    for n, x in enumerate(lines):
        if x.startswith("  - id: "):
            a, b = lines[n + 1], lines[n + 2]
            if not a.startswith("    width: ") or not b.startswith("    length: "):
                return {"": {}}
            out[x[8:]] = {w: int(a[11:]), l: int(b[12:])}
    return out


def some_id(r, p, t, names, other=0.08):
    """(python id, normalised)"""
    if r.random() < other:
        return r.choice(NONSTR), None
    s = p.items if t == "items" else p.containers
    if r.random() < 0.7:
        return r.choice(list(s)), 1
    return r.choice(names), 1


def plain_copy(p, R, pre):
    """a new instance with the same data"""
    its = {i: dict(d) for i, d in p.items.items()}
    st = copy.deepcopy(p.settings)
    if R.strip:
        q = campaigns.Few(items=its, strip_pack_width=p.containers["strip-pack-container"]["W"],
                          settings=st)
        rec.set_heights(q, pre[0], pre[1])
    else:
        q = campaigns.Few(containers={i: dict(d) for i, d in p.containers.items()}, items=its,
                          settings=st)
    q.few, q.takes = p.few, p.takes
    q.potential_points_strategy = tuple(pre[2])
    return q


def step(R, p, pb, names, r):
    t = r.choice(["items", "items", "conts"])
    w, l = ("w", "l") if t == "items" else ("W", "L")
    S = p.items if t == "items" else p.containers

    def nid(i):
        return {"k": "str", "v": R.rank.get(i, 0)} if isinstance(i, str) else {"k": "other", "v": 0}

    kinds = ["setentry"] * 3 + ["setdim"] * 4 + ["delentry"] * 3 + ["deldim"] + ["update"] * 4 + \
        ["dimupdate"] * 3 + ["dimdefault"] + ["assign"] * 3 + ["selfassign", "setdefault"] + \
        ["setdefault"] + ["pop"] * 2 + ["popitem", "clear", "delattr", "mutate", "mutate", "read"] + \
        ["sort"] * 4 + ["orient"] * 4 + ["solve"] * 10 + ["ls"] * 2 + ["hs"] * 2 + \
        ["settings", "strategy", "badsolve"]
    if R.strip:
        kinds += ["height"] * 5 + ["minheight"] * 5 + ["reset"] * 2 + ["delheight"]
    if R.kinds:
        kinds = [k for k in R.kinds if R.strip or k not in ("height", "minheight", "reset")]
    k = r.choice(kinds)
    op = {"op": k}
    fresh = 0
    ref = None
    after = None
    if k in ("setentry", "setdefault"):
        i = some_id(r, p, t, names)[0]
        if k == "setdefault" and i is True:
            i = 3
        d, nd = dims(r, w, l)
        op.update(t=t, id=nid(i), dims=nd)
        if k == "setentry":
            def f():
                S[i] = d
        else:
            def f():
                S.setdefault(i, d)
        if isinstance(d, dict):
            after = d
    elif k == "setdim":
        i = some_id(r, p, t, names, 0)[0]
        y = r.choice([1, 1, 2, 2, 0])
        v = r.choice(BAD) if r.random() < 0.25 else r.randint(1, 9)
        nv = v if rec.is_int(v) and v >= 1 else -99
        op.update(t=t, id=nid(i), key=y, val=nv)
        key = {1: w, 2: l, 0: r.choice([w.swapcase(), "x", "", "width"])}[y]

        def f():
            S[i][key] = v
    elif k in ("delentry", "pop"):
        i = some_id(r, p, t, names, 0)[0]
        op.update(t=t, id=nid(i))
        if k == "delentry":
            def f():
                del S[i]
        else:
            hd = r.random() < 0.4
            op["hasdef"] = hd

            def f():
                S.pop(i, None) if hd else S.pop(i)
    elif k == "deldim":
        i = r.choice(list(S))
        how = r.choice(["del", "pop", "popitem", "clear"])
        op.update(t=t, id=nid(i))

        def f():
            if how == "del":
                del S[i][w]
            elif how == "pop":
                S[i].pop(l)
            elif how == "popitem":
                S[i].popitem()
            else:
                S[i].clear()
    elif k in ("update", "assign"):
        q, nq = {}, []
        bad = r.choice([0, 0, 0.15])
        for _ in range(r.choice([0, 1, 1, 2, 3, 4]) if k == "update" else r.choice([0, 1, 2, 2, 3, 4])):
            i = some_id(r, p, t, names, bad / 2)[0]
            if i in q or i is True:
                continue
            d, nd = dims(r, w, l, bad)
            q[i] = d
            nq.append({"id": nid(i), "dims": nd})
        op.update(t=t, q=nq, kind="dict")
        if k == "assign":
            val = q
            if r.random() < 0.15:
                op["kind"] = "other"
                val = r.choice([None, [], list(q), 5, "items"])

            def f():
                setattr(p, "items" if t == "items" else "containers", val)
            after = val if isinstance(val, dict) else None
        else:
            how = r.choice(["update", "ior", "ior-attr", "pairs", "kw", "both"])
            if how in ("kw", "both") and not all(isinstance(i, str) for i in q):
                how = "pairs"

            def f():
                nonlocal S
                if how == "update":
                    S.update(q)
                elif how == "pairs":
                    S.update(list(q.items()))
                elif how == "kw":
                    S.update(**q)
                elif how == "both":
                    h = len(q) // 2
                    S.update(dict(list(q.items())[:h]), **dict(list(q.items())[h:]))
                elif how == "ior":
                    S |= q
                elif t == "items":
                    p.items |= q
                else:
                    p.containers |= q
            op["how"] = how
            if R.strip and t == "conts" and how == "ior-attr":
                # the assignment after the update fails as well
                op.update(op="assign", kind="other")
            after = q
    elif k in ("dimupdate", "dimdefault"):
        i = some_id(r, p, t, names, 0)[0]
        if k == "dimdefault":
            y = r.choice([1, 2, 0])
            op.update(t=t, id=nid(i), key=y)

            def f():
                S[i].setdefault({1: w, 2: l, 0: "q"}[y], 3)
        else:
            q, kv = {}, []
            for y in r.sample([1, 2, 0], r.choice([0, 1, 1, 2, 2])):
                if y == 0 and r.random() < 0.5:
                    continue
                v = r.choice(BAD) if r.random() < 0.15 else r.randint(1, 9)
                q[{1: w, 2: l, 0: "q"}[y]] = v
                kv.append([y, v if rec.is_int(v) and v >= 1 else -99])
            op.update(t=t, id=nid(i), kv=kv)
            how = r.choice(["update", "ior", "ior-attr", "kw"])
            if how == "ior-attr" and R.strip and t == "conts":
                how = "ior"

            def f():
                if how == "update":
                    S[i].update(q)
                elif how == "kw":
                    S[i].update(**q)
                elif how == "ior":
                    x = S[i]
                    x |= q
                else:
                    S[i] |= q
    elif k == "selfassign":
        if R.strip and t == "conts":
            t = "items"
        op.update(t=t)

        def f():
            if t == "items":
                p.items = p.items
            else:
                p.containers = p.containers
    elif k == "popitem":
        op.update(t=t)

        def f():
            S.popitem()
    elif k == "clear":
        op.update(t=t)

        def f():
            S.clear()
    elif k == "delattr":
        op.update(t=t)

        def f():
            if t == "items":
                del p.items
            else:
                del p.containers
    elif k in ("height", "minheight"):
        h = p.container_height
        v = r.choice([r.choice(BAD), h, h + 1, max(1, h - 1), r.randint(1, 40), r.randint(1, 12),
                      p.container_min_height or 1, max((p.container_min_height or 1) - 1, 1)])
        op["val"] = v if rec.is_int(v) and v >= 1 else -99

        def f():
            if k == "height":
                p.container_height = v
            else:
                p.container_min_height = v
    elif k == "reset":
        def f():
            p.reset_container_height()
    elif k == "delheight":
        def f():
            if r.random() < 0.5:
                del p.container_height
            else:
                del p.container_min_height
    elif k == "sort":
        by = r.choice(["area", "perimeter", "longest_side_ratio", "area", "perimeter",
                       "longest_side_ratio", "none", "bad"])
        rv = r.random() < 0.5
        op.update(by=by, rev=rv)

        def f():
            if by == "none":
                p.sort_items(None)
            elif by == "bad":
                p.sort_items((r.choice(["Area", "width", "", None]), rv))
            else:
                p.sort_items((by, rv))
    elif k == "orient":
        o = r.choice(["wide", "long", "wide", "long", "none", "bad"])
        op.update(o=o, rot=R.rot if hasattr(R, "rot") else pb["rot"])

        def f():
            p.orient_items({"none": None, "bad": r.choice(["tall", "", 3, "WIDE"])}.get(o, o))
    elif k == "badsolve":
        seq = list(p.items)
        r.shuffle(seq)
        seq.insert(r.randint(0, len(seq)),
                   r.choice([x for x in ("unknown", "strip-pack-container", "", 1)
                             if x not in seq]))

        def f():
            p.solve(sequence=seq)
    elif k in ("solve", "ls", "hs", "cut"):
        cut = k == "cut"
        if cut:
            k = r.choice(["solve", "ls", "ls", "hs", "hs"])
            op["of"] = k
        pre = (p.container_height, p.container_min_height, tuple(p.potential_points_strategy))
        if k == "solve":
            seq = None
            sf = r.choice([0, 0, 0, 1, 14, 18])
            if r.random() < 0.4:
                seq = list(p.items)
                r.shuffle(seq)
                if r.random() < 0.4:
                    seq = seq[:r.randint(1, len(seq))]
                seq = rec.form(seq, sf)  # the caller's own object is given
                R.olds.append([seq, json.dumps(seq)])

            def act(x):
                x.solve(sequence=seq) if seq is not None else x.solve()
        elif k == "ls":
            def act(x):
                x.local_search()
        else:
            by = r.choice(["area", "perimeter", "longest_side_ratio", "none"] +
                          ["bad"] * (not cut))
            rv = r.random() < 0.5
            o = r.choice(["wide", "long", "none", "bad"])
            op.update(by=by, rev=rv, o=o, rot=R.rot if hasattr(R, "rot") else pb["rot"])
            ori = {"none": None, "bad": "tall"}.get(o, o)

            def act(x):
                x.hypersearch(orientation=ori,
                              sorting_by=None if by == "none" else (by, rv))
        if cut:
            c = Cutter()
            common.vclock.active = True
            c.run(act, plain_copy(p, R, pre))
            c.at, c.n = r.randint(1, max(c.n, 1)), 0
            c.error = r.choice([Cut, MemoryError])
            op["with"] = c.error.__name__
            before = p.solution

            def f():
                c.run(act, p)
        else:
            ref = plain_copy(p, R, pre)

            def f():
                act(p)
    elif k == "settings":
        rot = r.random() < 0.5
        tm = r.choice(R.times)
        new = {"rotation": rot, "max_time_in_seconds": tm}

        how = r.choice(["assign", "place", "place"] if R.kinds else ["assign"])

        def f():
            if how == "assign":
                p.settings = new
                return
            p.settings["rotation"] = rot
            p.settings["max_time_in_seconds"] = tm
            p.validate_settings()
            for o in R.olds:
                if o[0] is p.settings:
                    o[1] = json.dumps(o[0])
        R.rot = rot
    elif k == "strategy":
        v = tuple(gen.strategy(r))
        if r.random() < (0.6 if R.kinds is WEIGHTS["hist-strat"] else 0.15):
            v = odd_strategy(r, v, p)
        good = [e for e in v] if isinstance(v, (tuple, list)) else []
        op.update(kind="tuple" if isinstance(v, tuple) else "other", want=R.fp(repr(v)),
                  els=[-1 if not isinstance(e, str) else
                       (1 + gen.CLASSES.index(e) if e in gen.CLASSES else 0) for e in good])

        def f():
            p.potential_points_strategy = v
    elif k == "delstrategy":
        def f():
            del p.potential_points_strategy
    elif k == "mutate":
        def f():
            for o in R.olds:
                x = o[0]
                if isinstance(x, list):
                    x.append("zz")
                elif isinstance(x, dict) and "rotation" not in x:
                    for d in x.values():
                        if isinstance(d, dict) and d and r.random() < 0.7:
                            d[next(iter(d))] = r.randint(1, 9)
                    if r.random() < 0.5:
                        x["mutated"] = {"w": 1, "l": 1}
                    elif r.random() < 0.2:
                        x.clear()
                o[1] = json.dumps(x, default=str, skipkeys=True)
            for x in (p.items.deepcopy(), p.containers.deepcopy(),
                      p.items.deepcopy(list(p.items)), p.items.copy(), p.containers.copy()):
                for d in x.values():
                    d.clear()
                x.clear()
            for S in (p.items, p.containers):
                for i in S:
                    d = S[i].copy()
                    d[next(iter(d))] = 77
            if R.sol(p):
                s, ob = p.get_solution()
                for c in s.values():
                    for v in c.values():
                        v[0] = 77
                s.clear()
                ob.clear()
    else:
        def f():
            if R.sol(p):
                R.handles.append([p.solution, json.dumps(p.solution, default=str)])
                R.handles.append([p.obj_val_per_container,
                                  json.dumps(p.obj_val_per_container, default=str)])
            p.get_strategies()
            p.log_solution()
            read(R, p, r, names, op)
    if r.random() < 0.3 and k != "mutate" and R.sol(p):
        R.handles.append([p.solution, json.dumps(p.solution, default=str)])
    err = "none"
    common.vclock.active = len(R.times) > 1
    try:
        told = {"o": op["o"], "rot": op["rot"]} if op["op"] in ("orient", "hs") else {}
        with logs.seen(op["op"], **told):
            f()
    except common.CaseTimeout:
        raise
    except (Exception, Cut) as e:
        err = type(e).__name__
    if op["op"] == "cut" and p.solution and p.solution is not before:
        R.sols.append(solution_now(R, p))
    if ref is not None and err == "none":
        act(ref)
        fresh = R.sol(ref)
    common.vclock.active = False
    R.steps.append({"op": op, "err": err, "fresh": fresh,
                    "handles": [[R.fp(x[1]), R.fp(json.dumps(x[0], default=str))]
                                for x in R.handles],
                    "olds": [[R.fp(x[1]), R.fp(json.dumps(x[0], default=str, skipkeys=True))]
                             for x in R.olds]})
    if after is not None:
        R.olds.append([after, json.dumps(after, default=str, skipkeys=True)])
    R.handles = R.handles[-8:]
    R.olds = R.olds[:3] + R.olds[3:][-6:]


def error_case(key, err):
    s = {"items": [[1, 1, 1]], "conts": [[1, 1, 1]], "strip": False, "h": 0, "minh": 0, "sol": 0,
         "obj": 0, "set": 1, "strat": 1}
    return {"default": 1, "st": [s], "steps": [], "err": err[:1500], "key": key}
