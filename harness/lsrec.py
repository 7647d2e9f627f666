"""Recording of local searches (P10, P11, P15, P16)."""
import json
import random

import campaigns
import common
import gen
import rec
from common import SEED, vclock
from hyperpack import HyperPack
from hyperpack.abstract import AbstractLocalSearch

FAR = 10 ** 6


def sparse(seq, pos):
    return [[i + 1, pos[x]] for i, x in enumerate(seq) if pos[x] != i + 1]


def first_places(init):
    """where each element stands first"""
    return {x: len(init) - i for i, x in enumerate(reversed(init))}


class Ids(dict):
    def of(self, x):
        return self.setdefault(x, len(self) + 1)


def sol_text(sol, obj):
    return json.dumps([sorted((c, sorted((i, list(v)) for i, v in s.items())) for c, s in sol.items()),
                       sorted((c, repr(float(v))) for c, v in obj.items())])


def height_of(p):
    s = list(p.solution.values())[0]
    return max([v[1] + v[3] for v in s.values()] or [0])


def value_of(p):
    """the objective of the instance; the maximum if every container is really full"""
    v = p.calculate_obj_value()
    area = [sum(x[2] * x[3] for x in s.values()) for s in p.solution.values()]
    if p.container_height is not None:  # strip packing
        size = [p.containers["strip-pack-container"]["W"] * max(1, height_of(p))]
    else:
        size = [c["W"] * c["L"] for c in p.containers.values()]
    return max(v, optimum(len(size))) if area == size else v


def event(p, seq, h, strip):
    """a recorded candidate, after its evaluation"""
    n = sum(len(s) for s in p.solution.values())
    return {"seq": seq, "val": value_of(p),
            "elig": (not strip) or p.container_min_height is not None or n == len(p.items),
            "text": sol_text(p.solution, p.obj_val_per_container),
            "t": round(vclock.now * 4), "h": h or 0, "hn": height_of(p) if strip else 0}


class LSpy(campaigns.Few):
    """records every candidate of a search"""
    log = None
    ticks = None  # iterator of clock advances (quarter seconds)

    def evaluate_node(self, sequence):
        if self.log is None:
            return super().evaluate_node(sequence)
        h = self.container_height
        seq = list(sequence)
        super().evaluate_node(sequence)
        if self.ticks is not None:
            vclock.now += next(self.ticks) / 4
        self.log.append(event(self, seq, h, self.strip_mode))
        if len(self.log) > 60000:
            raise RuntimeError("search does not end")


def optimum(nc):
    return 1.0 if nc == 1 else nc - 1 + 0.7


def ranks(values, opt):
    """order preserving map of floats to 1.. ; opt -> smallest rank at or above"""
    vs = sorted(set(values))
    rk = {v: i + 1 for i, v in enumerate(vs)}
    o = next((rk[v] for v in vs if v >= opt), FAR)
    return rk, o


def ls_case(pb, p, log, ids, v0, text0, start, limit, throttle, maxn, fin, h0, key, err="none"):
    nc = len(pb["conts"])
    pos = {x: i + 1 for i, x in enumerate(ids)}
    rk, opt = ranks([v0, fin["val"]] + [x["val"] for x in log], optimum(nc))
    fps = Ids()
    return {"n": len(ids), "sense": "MAX", "opt": opt, "throttle": throttle, "maxn": maxn,
            "limit": limit, "start": start, "v0": rk[v0], "fp0": fps.of(text0),
            "evs": [{"d": sparse(x["seq"], pos), "v": rk[x["val"]], "elig": x["elig"],
                     "fp": fps.of(x["text"]), "t": x["t"], "h": x["h"], "hn": x["hn"]}
                    for x in log],
            "fin": {"v": rk[fin["val"]], "fp": fps.of(fin["text"]), "h": fin["h"]},
            "strip": pb["strip"], "h0": h0, "minh": pb.get("minh") or 0, "err": err, "key": key}


def error_case(key, err):
    return {"n": 1, "sense": "MAX", "opt": FAR, "throttle": True, "maxn": 1, "limit": 1,
            "start": 0, "v0": 1, "fp0": 1, "evs": [], "fin": {"v": 1, "fp": 1, "h": 0},
            "strip": False, "h0": 0, "minh": 0, "err": err[:1500], "key": key}


def ls_problem(r, big=False):
    if big:
        pb = gen.problem(r, size=r.choice([8, 10]), kmax=30, conts=1)
    else:
        pb = gen.problem(r, size=r.choice([2, 3, 4, 5, 6, 8, 10]), kmax=8,
                         strip=r.random() < 0.45)
    for f in ("items", "seq", "ids"):
        pb[f] = pb[f][: 30 if big else 7]
    pb["seq"] = list(range(1, len(pb["items"]) + 1))
    if pb["strip"]:
        # heights at which some orders fit and others do not
        area = sum(d["w"] * d["l"] for d in pb["items"])
        need = -(-area // pb["conts"][0]["W"])
        pb["conts"][0]["L"] = r.choice([need, need + 1, need + 2, need + 4,
                                        10 * pb["conts"][0]["W"], 2 * need + 3])
        if r.random() < 0.08:  # a single row, of height 1
            for d in pb["items"]:
                d["l"] = 1
            pb["conts"][0].update(W=max(1, sum(d["w"] for d in pb["items"]) - r.choice([0, 0, 1])),
                                  L=r.choice([1, 2, 3]))
        if r.random() < 0.4:
            pb["minh"] = r.choice([1, r.randint(1, pb["conts"][0]["L"])] * 2 + [pb["conts"][0]["L"]])
    return pb


def tall(r):
    """a strip of many items which nearly all fit"""
    k = r.randint(42, 70) if r.random() < 0.6 else r.randint(15, 30)
    pb = gen.problem(r, size=8, kmax=2, strip=True)
    its = [(r.randint(1, 3), r.randint(1, 3)) for _ in range(k)]
    W = r.randint(5, 10)
    need = -(-sum(a * b for a, b in its) // W)
    pb.update(items=[{"w": a, "l": b} for a, b in its], seq=list(range(1, k + 1)),
              ids=gen.IDS[0](k, r), conts=[{"W": W, "L": need + r.choice([0, 1, 2, 3, 9, 40])}])
    if r.random() < 0.3:
        pb["minh"] = r.randint(1, need)
    return pb


def ticks(r, mode):
    if mode == "late":  # the time passes at one late candidate
        for _ in range(r.choice([r.randint(1, 30), r.randint(60, 260)])):
            yield 0
        yield 400
    while True:
        if mode == "zero":
            yield 0
        elif mode == "slow":
            yield r.choice([0, 0, 0, 1, 2])
        elif mode == "exact":
            yield 1
        elif mode == "late":
            yield 0
        else:
            yield r.choice([0, 0, 0, 0, 0, 0, 4, 400])


def other(p, r, pb):
    """another problem on the same instance: other containers, other items"""
    if not pb["strip"] and r.random() < 0.5:
        p.containers = {"e%d" % j: {"W": r.randint(1, 9), "L": r.randint(1, 9)}
                        for j in range(r.randint(1, 3))}
    if r.random() < 0.4:
        p.items = {"e%d" % j: {"w": r.randint(1, 4), "l": r.randint(1, 4)}
                   for j in range(r.randint(1, 5))}


def again(p, pb):
    """the problem itself again"""
    if not pb["strip"]:
        p.containers = rec.conts_of(pb)
    p.items = rec.items_of(pb)


def earlier(p, r, pb):
    """other searches before, leaving the problem as it is; time passes"""
    log, p.log = getattr(p, "log", None), None
    sc, p.sc = getattr(p, "sc", None), None
    few, p.few = p.few, [tuple(gen.strategy(r, "perm")) for _ in range(r.randint(1, 2))]
    vclock.active = True
    other(p, r, pb)
    thr, HyperPack.MAX_NEIGHBORS_THROTTLE = HyperPack.MAX_NEIGHBORS_THROTTLE, 30
    try:
        for _ in range(r.randint(1, 2)):
            op = r.choice(["solve", "ls", "hs", "hs", "sorted", "log"])
            if op == "solve":
                p.solve()
            elif op == "ls":
                p.local_search()
            elif op == "hs":
                p.hypersearch(orientation=None, sorting_by=None)
            elif op == "sorted":
                # sorts and orients; the items are given again afterwards
                kept = {i: dict(d) for i, d in p.items.items()}
                p.hypersearch() if r.random() < 0.7 else \
                    p.hypersearch(orientation="long", sorting_by=("perimeter", False))
                p.items = kept
            elif p.solution:
                p.log_solution()
            vclock.now += r.choice([0, 0.5, 5, 1000])
    finally:
        vclock.active = False
        HyperPack.MAX_NEIGHBORS_THROTTLE = thr
    again(p, pb)
    p.log, p.sc, p.few = log, sc, few
    p.potential_points_strategy = tuple(pb["strat"])
    if pb["strip"]:
        p.reset_container_height()
        p.container_height = pb["conts"][0]["L"]
        if pb.get("minh"):
            p.container_min_height = pb["minh"]


def hyper_ls(a):
    """a recorded HyperPack.local_search"""
    kind, n = a
    r = gen.rng_for(SEED, kind, n)
    pb = gen.brink(r) if kind == "ls-brink" else tall(r) if kind == "ls-tall" \
        else gen.shipped(r, ("C1", "C1", "C2")) if kind == "ls-shipped" \
        else ls_problem(r, big=(kind == "ls-big"))
    if r.random() < 0.25 and not pb["strip"] and kind == "ls":
        # can be filled completely: the optimum is reached by some order
        w, l = r.randint(2, 6), r.randint(2, 6)
        pb = gen.problem(r, size=6, strip=False, conts=r.choice([1, 1, 2]), fam="tile")
        for f in ("items", "seq", "ids"):
            pb[f] = pb[f][:7]
        pb["seq"] = list(range(1, len(pb["items"]) + 1))
    mode = r.choice(["zero", "slow", "exact", "jump", "zero", "late"])
    limit = r.choice([1, 2, 5]) if mode != "zero" else 60
    p = rec.build(pb, cls=LSpy, settings={"max_time_in_seconds": limit})
    p.strip_mode = pb["strip"]
    maxn = 2500
    few = kind in ("ls-tall", "ls-shipped")
    if r.random() < 0.35 or few:
        maxn = r.choice([10, 40]) if few else r.choice([1, 2, 3, 5, 6, 10])
        p.MAX_NEIGHBORS_THROTTLE = maxn
    throttle = r.random() < 0.6 or few
    vclock.now = float(r.choice([0, 1000, 7]))
    if r.random() < 0.3 and not kind.endswith("big") and kind != "ls-shipped":
        earlier(p, r, pb)
    q = rec.build(pb, cls=LSpy)  # the plain solution
    q.strip_mode = pb["strip"]
    q.solve()
    v0, text0 = value_of(q), sol_text(q.solution, q.obj_val_per_container)
    vclock.active = True
    start = round(vclock.now * 4)
    p.log, p.ticks = [], ticks(r, mode)
    try:
        p.local_search(throttle=throttle, debug=r.random() < 0.1) if r.random() < 0.9 or throttle \
            is False else p.local_search()
    finally:
        vclock.active = False
    fin = {"val": value_of(p), "text": sol_text(p.solution, p.obj_val_per_container),
           "h": p.container_height or 0}
    return ls_case(pb, p, p.log, list(pb["ids"]), v0, text0, start, 4 * limit, throttle, maxn, fin,
                   pb["conts"][0]["L"] if pb["strip"] else 0, [kind, n])


# ---------------------------------------------------------- the bare engine
class Engine(AbstractLocalSearch):
    def __init__(self, f, sense, opt, r, mode):
        self.f, self.sense = f, sense
        self.OPTIMIZATION = sense
        if opt is not None:
            self.get_optimum_objective_val = lambda: opt
        self.log = []
        self.ticks = ticks(r, mode)
        self.sol = None
        self.value = None

    def get_init_solution(self):
        self.sol = list(self.init)
        self.value = self.f(tuple(self.sol))
        return list(self.sol)

    def calculate_obj_value(self):
        return self.value

    def get_solution(self):
        return list(self.sol)

    def evaluate_node(self, sequence):
        self.sol = list(sequence)
        self.value = self.f(tuple(sequence))
        vclock.now += next(self.ticks) / 4
        self.log.append((list(sequence), self.value, round(vclock.now * 4)))
        if len(self.log) > 60000:
            raise RuntimeError("search does not end")


def landscape(r, n, opt):
    """an objective function of the sequence, with ties"""
    kind = r.choice(["random", "linear", "pairs"])
    m = r.choice([2, 3, 6, 50])
    salt = r.random()
    scale = r.choice([1, 0.5, -1])
    # values next to each other, or far away from 0
    fine = r.choice([None, None, None, (1, 2.0 ** -52), (1, 1e-9), (-1, 1e-7), (10 ** 15, 1),
                     (0, 1e-300), (-10 ** 18, 1), (1e6, 1e-6), (0.1, 1e-12)])

    def f(seq):
        if kind == "random":
            v = random.Random(repr((salt, seq))).randrange(m)
        elif kind == "linear":
            v = sum((i + 1) * (hash((x, m)) % 7) for i, x in enumerate(seq)) % (4 * m)
        else:
            v = sum(1 for i, x in enumerate(seq) if (x * 7 + i) % m == 0)
        if fine:
            return fine[0] + v * fine[1]
        return v * scale
    return f


def by_ordinal(n, m, sense, tie):
    """only the m-th exchange of the initial sequence is an improvement"""
    import itertools
    init = tuple(range(n))
    sw = list(itertools.islice(itertools.combinations(range(n), 2), m - 1, m))
    tgt = None
    if sw:
        q = list(init)
        i, j = sw[0]
        q[i], q[j] = q[j], q[i]
        tgt = tuple(q)
    sg = 1 if sense == "MAX" else -1

    def f(seq):
        if seq == tgt:
            return 5 * sg
        if seq == init:
            return 0
        return 0 if tie else -1 * sg
    return f


def engine_ls(a):
    kind, n = a
    r = gen.rng_for(SEED, kind, n)
    sense = r.choice(["MAX", "MIN"])
    maxn = 2500
    if kind == "eng-big":
        size = r.choice([71, 72, 73, 73, 104, 110])
        swaps = size * (size - 1) // 2
        f = by_ordinal(size, r.choice([2499, 2500, 2501, swaps, swaps + 1] if size < 100 or n % 4 == 0 else
                                    [swaps, swaps + 1]), sense, r.random() < .5)
        opt, mode, limit = r.choice([None, None, 5 if sense == "MAX" else -5]), "zero", 60
    elif kind == "eng" and n % 12 == 7:
        size = r.randint(15, 25)
        swaps = size * (size - 1) // 2
        f = by_ordinal(size, r.choice([r.randint(1, swaps), swaps + 1]), sense, r.random() < .5)
        opt, mode, limit = None, r.choice(["late", "late", "zero"]), r.choice([1, 5])
    else:
        size = r.choice([1, 2, 3, 4, 5, 6, 7, 8])
        f = landscape(r, size, None)
        mode = r.choice(["zero", "zero", "slow", "jump", "exact"])
        limit = r.choice([1, 2, 5]) if mode != "zero" else 60
        opt = None
    e = Engine(f, sense, opt, r, mode)
    if size < 9:
        if r.random() < 0.5:
            maxn = r.choice([1, 2, 3, 4, 7, 10, 15, 28])
            e.MAX_NEIGHBORS_THROTTLE = maxn
        init = ["k%d" % x for x in range(size)]
        if r.random() < 0.25:  # elements may be repeated
            init = [init[r.randrange(max(1, size - 1))] for x in range(size)]
        base = f
        e.f = lambda s: base(tuple(int(x[1:]) for x in s))
        if r.random() < 0.4:
            vals = [e.f(tuple(r.sample(init, size))) for _ in range(10)]
            opt = max(vals) if sense == "MAX" else min(vals)
            e.get_optimum_objective_val = lambda: opt
    else:
        init = list(range(size))
    e.init = list(init)
    throttle = r.random() < 0.6 if size < 100 or n % 4 == 0 else False
    vclock.now = 100.0
    vclock.active = True
    given = list(init)
    try:
        res = e.local_search(given, throttle, 100.0, limit, debug=r.random() < 0.2)
    finally:
        vclock.active = False
    v0 = e.f(tuple(init))
    rk = {v: i + 1 for i, v in enumerate(sorted(set([v0, e.f(tuple(res))] + [x[1] for x in e.log])))}
    o = FAR if sense == "MAX" else -FAR
    if opt is not None:
        if sense == "MAX":
            o = min([rk[v] for v in rk if v >= opt] or [FAR])
        else:
            o = max([rk[v] for v in rk if v <= opt] or [-FAR])
    pos = first_places(init)
    fps = Ids()
    err = "none" if given == init else "the caller's sequence was changed"
    return {"n": size, "sense": sense, "opt": o, "throttle": throttle, "maxn": maxn,
            "limit": 4 * limit, "start": 400, "v0": rk[v0], "fp0": fps.of(repr(list(init))),
            "evs": [{"d": sparse(s, pos), "v": rk[v], "elig": True, "fp": fps.of(repr(s)), "t": t,
                     "h": 0, "hn": 0} for s, v, t in e.log],
            "fin": {"v": rk[e.f(tuple(res))], "fp": fps.of(repr(list(res))), "h": 0},
            "strip": False, "h0": 0, "minh": 0, "err": err, "key": [kind, n],
            "lab": [pos[x] for x in init]}


def run(a):
    return engine_ls(a) if a[0].startswith("eng") else hyper_ls(a)
