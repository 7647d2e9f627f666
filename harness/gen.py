"""Random problem generators (the drivers of the conformance checks)."""
import json
import os
import importlib
import random

CLASSES = ("A", "B", "C", "D", "A_", "B_", "B__", "A__", "E", "F")


def rng_for(*key):
    return random.Random("|".join(str(k) for k in key))


def strategy(r, mode=None):
    mode = mode or r.choice(["default", "perm", "perm", "subset", "first", "first", "single"])
    st = list(CLASSES)
    if mode == "default":
        return st
    r.shuffle(st)
    if mode == "subset":
        return st[: r.randint(0, 9)]
    if mode == "single":
        # one class above all, A and B always available
        a = r.choice(["A_", "B_", "A__", "B__", "C", "D", "E", "F"])
        return [a] + [c for c in ("A", "B") if c != a]
    if mode == "first":
        a = r.sample(["A_", "B_", "A__", "B__", "C", "D", "E", "F"], 2)
        return a + [c for c in st if c not in a]
    return st


def cut(r, w, l, n):
    """guillotine cut of a w x l rectangle into about n pieces"""
    parts = [(w, l)]
    for _ in range(n - 1):
        parts.sort(key=lambda d: -d[0] * d[1])
        i = r.randrange(min(3, len(parts)))
        a, b = parts[i]
        if a > 1 and (b == 1 or r.random() < 0.5):
            c = r.randint(1, a - 1)
            parts[i:i + 1] = [(c, b), (a - c, b)]
        elif b > 1:
            c = r.randint(1, b - 1)
            parts[i:i + 1] = [(a, c), (a, b - c)]
    return parts


def items(r, fam, m, k):
    if fam == "thin":
        return [((1, r.randint(1, m)) if r.random() < 0.5 else (r.randint(1, m), 1))
                if r.random() < 0.7 else (r.randint(1, max(1, m // 2)), r.randint(1, max(1, m // 2)))
                for _ in range(k)]
    if fam == "equal":
        kinds = [(r.randint(1, max(1, m // 2)), r.randint(1, max(1, m // 2))) for _ in range(2)]
        return [r.choice(kinds) for _ in range(k)]
    if fam == "probe":
        a = [(r.randint(1, max(1, m // 2)), r.randint(1, max(1, m // 2))) for _ in range(k // 2)]
        return a + [(1, 1)] * (k - len(a))
    if fam == "big":
        return [(r.randint(max(1, m // 3), m + 2), r.randint(1, m + 2)) for _ in range(k)]
    if fam == "small":
        q = max(1, m // 3)
        return [(r.randint(1, q), r.randint(1, q)) for _ in range(k)]
    q = max(1, m // r.choice([1, 2, 2, 3]))
    return [(r.randint(1, q), r.randint(1, q)) for _ in range(k)]


FAMS = ("mix", "mix", "mix", "thin", "equal", "probe", "big", "small", "tile", "pin")


def pinwheel(r, m):
    """arrangements with holes: long items around a gap"""
    a = r.randint(2, max(2, m - 1))
    b = r.randint(1, max(1, m // 3))
    its = [(a, b), (b, a), (a, b), (b, a)]
    its += [(r.randint(1, m), r.randint(1, 2)) for _ in range(3)]
    its += [(r.randint(1, 2), r.randint(1, m)) for _ in range(3)]
    r.shuffle(its)
    return its


def problem(r, size=None, strip=None, conts=None, fam=None, strat=None, kmax=14, rot=None):
    m = size or r.choice([3, 4, 5, 6, 8, 10, 10, 12, 15, 20])
    fam = fam or r.choice(FAMS)
    strip = (r.random() < 0.25) if strip is None else strip
    nc = 1 if strip else (conts or r.choice([1, 1, 1, 2, 2, 3, 4]))
    cs = []
    for _ in range(nc):
        cs.append({"W": r.randint(max(1, m // 2), m), "L": r.randint(max(1, m // 2), m)})
    if r.random() < 0.1:
        cs[0] = {"W": r.randint(1, m), "L": r.randint(1, 2)}
    if r.random() < 0.1:
        cs[0] = {"W": r.randint(1, 2), "L": r.randint(1, m)}
    if strip:
        cs[0]["L"] = r.choice([r.randint(1, 3 * m), 10 * cs[0]["W"]])
    k = r.randint(1, kmax)
    if fam == "tile":
        its = cut(r, cs[0]["W"], min(cs[0]["L"], m), r.randint(1, 7))
        if r.random() < 0.5:
            its.sort(key=lambda d: (-d[0], -d[1]))
        its += [(r.randint(1, m), r.randint(1, m)) for _ in range(r.randint(0, 4))]
    elif fam == "pin":
        its = pinwheel(r, m)
    else:
        its = items(r, fam, m, k)
    n = len(its)
    seq = list(range(1, n + 1))
    if r.random() < 0.7:
        r.shuffle(seq)
    if r.random() < 0.05:
        seq = seq[: r.randint(1, n)]
    ids = IDS[r.randrange(len(IDS))](n, r)
    cids = CIDS[r.randrange(len(CIDS))](nc, r)
    return {"strip": strip, "conts": cs, "items": [{"w": a, "l": b} for a, b in its],
            "rot": (r.random() < 0.6) if rot is None else rot,
            "strat": strat if strat is not None else strategy(r), "seq": seq, "ids": ids,
            "cids": cids}


def many(r):
    """many containers, many items"""
    return problem(r, size=r.choice([4, 6, 8]), kmax=60, conts=r.randint(5, 12), strip=False,
                   fam=r.choice(["mix", "small", "thin", "equal", "probe"]))


def far(r, pb):
    """projections over long distances: steps far apart"""
    flat = r.random() < 0.5
    its, rest = [], 300
    for _ in range(r.randint(2, 7)):
        b = r.choice([1, 2, 5, r.randint(1, 120)])
        its.append((b, r.randint(20, 90)))
    its.insert(r.randint(0, 1), (r.randint(140, 280), r.choice([1, 2, 10])))
    its += [(r.randint(1, 20), r.randint(1, 20)) for _ in range(r.randint(2, 10))]
    its = [(a, b) if flat else (b, a) for a, b in its]
    n = len(its)
    pb["conts"] = [dict(c, W=r.choice([rest, r.randint(200, 300)]), L=r.randint(150, 300)) for c in pb["conts"]]
    st = r.sample(["A_", "B_", "E", "F", "B__", "A__", "B", "A"], r.randint(1, 4))
    pb.update(items=[{"w": a, "l": b} for a, b in its], seq=list(range(1, n + 1)),
              ids=IDS[0](n, r), strat=st + r.sample([c for c in CLASSES if c not in st], r.randint(3, 6)))


def wide(r):
    """large sizes, also far from square"""
    pb = problem(r, size=r.choice([100, 150, 256, 300]), kmax=24,
                 fam=r.choice(["mix", "thin", "equal", "big", "pin", "tile", "probe"]))
    how = r.random()
    if how < 0.3:
        far(r, pb)
    elif how < 0.6 and not pb["strip"]:
        for c in pb["conts"]:
            c[r.choice("WL")] = r.randint(1, 12)
        for d in pb["items"]:
            d[r.choice("wl")] = r.randint(1, 8)
    return pb


def crowd(r):
    """very many small items, many points waiting"""
    m = r.choice([24, 30, 40])
    q = r.choice([1, 2, 2, 3])
    k = r.randint(110, 260) if r.random() < 0.9 else r.randint(260, 480)
    its = [(r.randint(1, q), r.randint(1, q)) for _ in range(k)]
    if r.random() < 0.3:
        its.sort(key=lambda d: (-d[0] * d[1], -d[0]))
    pb = problem(r, size=m, kmax=2, conts=r.choice([1, 1, 2]),
                 strip=r.random() < 0.2)
    n = len(its)
    pb.update(items=[{"w": a, "l": b} for a, b in its], seq=list(range(1, n + 1)),
              ids=IDS[0](n, r))
    if pb["strip"]:
        pb["conts"][0]["L"] = r.randint(m, 2 * m)
    elif r.random() < 0.7:
        # nearly full in the end, the simplest points tried late
        W = r.randint(13, 30)
        area = sum(x * y for x, y in its)
        st = r.sample(["A_", "B_", "A__", "B__", "C", "D", "E", "F"], 2)
        rest = [c for c in CLASSES if c not in st]
        r.shuffle(rest)
        pb.update(conts=[{"W": W, "L": max(6, int(area * r.choice([0.8, 0.95, 1, 1.05]) / W))}],
                  cids=pb["cids"][:1], strat=st + rest)
    return pb


def brink(r, most=7):
    """filled completely, or missing very little"""
    nc = r.choice([1, 1, 1, 2, 2, 5])
    row = nc == 5 or r.random() < 0.4
    cs, its = [], []
    for _ in range(nc):
        if row:
            c = {"W": r.choice([997, 3001, 20000]), "L": 1}
            if r.random() < 0.3:
                c = {"W": 1, "L": min(3001, c["W"])}
        else:
            c = {"W": r.randint(60, 340), "L": r.randint(60, 340)}
        cs.append(c)
        its.append(cut(r, c["W"], c["L"], r.randint(1, max(1, min(3, most // nc)))))
    c = r.choice(its)
    j = r.randrange(len(c))
    a, b = c[j]
    how = r.choice(["full", "full", "less", "less", "corner", "corner", "missing"])
    if how == "less":
        c[j] = (a - 1, b) if a > b else (a, max(1, b - 1))
    elif how == "corner" and min(a, b) > 1:
        c[j:j + 1] = [(a, b - 1), (a - 1, 1)] if r.random() < 0.5 else [(a - 1, b), (1, b - 1)]
    elif how == "missing" and len(c) > 1:
        c.pop(j)
    its = [x for c in its for x in c]
    if r.random() < 0.4:
        its.append((r.randint(1, max(a, 2)), 1))
    its = its[:most] if r.random() < 0.5 else r.sample(its, min(most, len(its)))
    pb = problem(r, size=10, kmax=2, conts=nc, strip=False)
    n = len(its)
    pb.update(conts=cs, items=[{"w": x, "l": y} for x, y in its], seq=list(range(1, n + 1)),
              ids=IDS[r.randrange(len(IDS))](n, r))
    return pb


def shipped(r, names=("C1", "C2", "C3", "C3", "C4", "C5", "C6")):
    """the benchmark data of the library, and the data it generates"""
    name = r.choice(names)
    mod = importlib.import_module("hyperpack.benchmarks.datasets.hopper_and_turton_2000." + name)
    c = [dict(x) for x in mod.containers.values()][0]
    its = [(d["w"], d["l"]) for d in getattr(mod, "items_" + r.choice("abc")).values()]
    how = r.choice(["given", "sorted", "wide", "shuffled", "part"])
    if how == "sorted":
        its.sort(key=lambda d: (-d[0] * d[1], -d[0]))
    elif how == "wide":
        its = sorted(((max(d), min(d)) for d in its), key=lambda d: (-d[0] * d[1], -d[0]))
    elif how == "shuffled":
        r.shuffle(its)
    elif how == "part":
        its = r.sample(its, r.randint(1, min(40, len(its))))
    pb = problem(r, size=10, kmax=2, conts=1, strip=r.random() < 0.3,
                 strat=strategy(r, r.choice(["default", "default", "perm", "first"])))
    if pb["strip"]:
        pb["conts"] = [{"W": c["W"], "L": r.choice([c["L"], c["L"] + 5, 2 * c["L"], 10 * c["W"]])}]
    else:
        pb["conts"] = [c] if r.random() < 0.6 else [c, dict(c)]
        if len(pb["conts"]) == 2:
            pb["conts"][0]["L"] = max(1, c["L"] // 2)
    n = len(its)
    pb.update(items=[{"w": a, "l": b} for a, b in its], seq=list(range(1, n + 1)),
              ids=IDS[r.randrange(len(IDS))](n, r),
              cids=CIDS[r.randrange(len(CIDS))](len(pb["conts"]), r))
    return pb


def neighbour(r, pb):
    """a problem next to pb"""
    q = dict(pb, items=[dict(d) for d in pb["items"]], conts=[dict(d) for d in pb["conts"]],
             strat=list(pb["strat"]))
    q.pop("keep", None)
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.choice(["dim", "dim", "dim", "swap", "strat", "add", "del", "cont", "rot", "cls"])
        n = len(q["items"])
        if k == "dim":
            d = r.choice(q["items"])
            y = r.choice("wl")
            d[y] = max(1, d[y] + r.choice([-2, -1, -1, 1, 1, 2]))
        elif k == "swap" and n > 1:
            i, j = r.sample(range(n), 2)
            q["items"][i], q["items"][j] = q["items"][j], q["items"][i]
        elif k == "strat":
            q["strat"] = strategy(r)
        elif k == "cls" and q["strat"]:
            c = r.choice(q["strat"])
            q["strat"].remove(c)
            q["strat"].insert(r.randint(0, 3), c)
        elif k == "add" and n < 22:
            q["items"].insert(r.randint(0, n), {"w": r.randint(1, 5), "l": r.randint(1, 5)})
        elif k == "del" and n > 1:
            q["items"].pop(r.randrange(n))
        elif k == "cont":
            d = r.choice(q["conts"])
            y = r.choice("WL")
            d[y] = max(1, min(40, d[y] + r.choice([-2, -1, 1, 2])))
        elif k == "rot":
            q["rot"] = not q["rot"]
    q["seq"] = list(range(1, len(q["items"]) + 1))
    return q


def named(r, pb):
    """pb with ids"""
    n, k = len(pb["items"]), len(pb["conts"])
    return dict(pb, ids=IDS[r.randrange(len(IDS))](n, r), cids=CIDS[r.randrange(len(CIDS))](k, r),
                seq=list(pb["seq"]), conts=[dict(d) for d in pb["conts"]])


def corpus():
    """problems found by tools/corpus.py: every case of the construction"""
    global _CORPUS
    if _CORPUS is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "corpus.json")) as f:
            _CORPUS = json.load(f)
    return _CORPUS


_CORPUS = None


def _shuffled(f):
    def g(n, r):
        x = f(n, r)
        r.shuffle(x)
        return x
    return g


def odd(j, r):
    """names with characters that mean something elsewhere"""
    return r.choice(["a.%d", "a.%d.html", "[%d]", "'%d'", '"%d"', "%%d %d", "{%d}", "<b>%d",
                     "x%d ", " x%d", "(%d)", "%d__b", "-%d", "Container: %d", "é%d", "$%d$", "#%d",
                     "a:%d", "a,%d", "\\%d", "%d" + "y" * 60, "%d 3x4", "None%d", "_%d"]) % j


def words(q):
    """names with a meaning of their own"""
    return lambda n, r: [q[j] if j < len(q) else "%s%d" % (q[j % len(q)], j) for j in range(n)]


IDS = [
    lambda n, r: ["i%d" % j for j in range(n)],
    _shuffled(lambda n, r: [str(j) for j in range(n)]),
    _shuffled(lambda n, r: ["".join(r.choice("abXY") for _ in range(3)) + str(j) for j in range(n)]),
    lambda n, r: ["item %d é" % (n - j) for j in range(n)],
    _shuffled(lambda n, r: [odd(j, r) for j in range(n)]),
    _shuffled(lambda n, r: ["the same long beginning of every identifier %d" % j
                            for j in range(n)]),
    _shuffled(words(["", " ", "w", "l", "Xo", "O", "A", "None", "0", "-1", "()", "[]", "'", '"',
                     "strip-pack-container", "c0", "items", "\u4e2d"])),
]
CIDS = [
    lambda n, r: ["c%d" % j for j in range(n)],
    _shuffled(lambda n, r: [str(j) for j in range(n)]),
    _shuffled(lambda n, r: ["".join(r.choice("zyx") for _ in range(2)) + str(j) for j in range(n)]),
    _shuffled(lambda n, r: [odd(j, r) for j in range(n)]),
    _shuffled(lambda n, r: ["container v1.%d" % j for j in range(n)]),
    _shuffled(words(["W", "strip-pack-container", "L", " ", "0", "A", "None", "i0", "w"])),
]
