"""Search for small problems that exercise every case of the construction (development tool).
   corpus.py search SECONDS [procs]  -> adds to harness/corpus.json
The twin below follows Packing.tla and only guides the search; it decides nothing."""
import json
import os
import random
import sys
import time
from multiprocessing import Pool

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
os.environ.setdefault("VERIF_SEED", "1")
import gen  # noqa: E402

OUT = V + "/harness/corpus.json"
KEEP = 6


class Twin:
    def __init__(self, pb):
        self.pb, self.f = pb, set()

    def kind(self, x, y):
        return self.g[y][x]

    def put(self, x, y, w, l):
        for b in range(y, y + l):
            for a in range(x, x + w):
                ex, ey = a in (x, x + w - 1), b in (y, y + l - 1)
                self.g[b][a] = 3 if ex and ey else 2 if ex or ey else 1

    def fit(self, x, y, w, l, tag):
        W, L, g = self.W, self.L, self.g
        if x + w > W or y + l > L:
            self.f.add(("fit", tag, "W" if x + w > W else "", "L" if y + l > L else ""))
            return False
        occ = [(a, b) for b in range(y, y + l) for a in range(x, x + w) if g[b][a]]
        if not occ:
            return True
        cs = tuple(bool(g[b][a]) for a, b in ((x, y), (x + w - 1, y), (x, y + l - 1),
                                              (x + w - 1, y + l - 1)))
        if not any(cs):
            side = tuple(sorted({"l" if a == x else "r" if a == x + w - 1 else "b" if b == y else
                                 "t" if b == y + l - 1 else "i" for a, b in occ}))
            self.f.add(("fit", tag, "sides", side))
        else:
            self.f.add(("fit", tag, "corners", cs))
        return False

    def gens(self, x0, y0, w, l):
        """[(class, point, origin)]"""
        W, L, g, f = self.W, self.L, self.g, self.f
        out = []
        ay, bx = y0 + l, x0 + w
        O = (2, 3)
        if ay < L:
            free = g[ay][x0] == 0
            if x0 == 0:
                o = ("A", "wall", free)
                agen = free
            else:
                s, t = g[ay - 1][x0 - 1], g[ay][x0 - 1]
                agen = free and ((s in O and t in O) or (s in (0, 3) and t == 3))
                o = ("A", s, t, free)
            f.add(o)
            if agen:
                out.append(("A", (x0, ay), o))
            elif x0 > 0 and s == 0 and t == 0:
                xp = -1
                skipped = set()
                for x in range(x0 - 1, -1, -1):
                    a, b = g[ay][x], g[ay - 1][x]
                    if a == 0 and b == 0 and x == 0:
                        xp, why = 0, "wall"
                        break
                    if a in O and (b in O or b == 0):
                        xp, why = x + 1, (a, b)
                        break
                    if (a, b) != (0, 0):
                        skipped.add((a, b))
                if xp < 0:
                    f.add(("xp", "none", tuple(sorted(skipped)), free))
                else:
                    d = 5 * (x0 - xp)
                    c = "A_" if d <= W else "E"
                    o2 = ("xp", why, tuple(sorted(skipped)), free,
                          "eq" if d == W else "next" if 0 < d - W <= 5 else c)
                    f.add(o2)
                    out.append((c, (xp, ay), o2))
            if free and not agen:
                out.append(("A__", (x0, ay), ("A__",) + o))
        else:
            f.add(("A", "out"))
        if bx < W:
            free = g[y0][bx] == 0
            if y0 == 0:
                o = ("B", "wall", free)
                bgen = free
            else:
                s, t = g[y0 - 1][bx - 1], g[y0 - 1][bx]
                bgen = free and ((s in O and t in O) or (s in (0, 3) and t == 3))
                o = ("B", s, t, free)
            f.add(o)
            if bgen:
                out.append(("B", (bx, y0), o))
            elif y0 > 0 and s == 0 and t == 0:
                yp = -1
                skipped = set()
                why = "none"
                for y in range(y0 - 1, -1, -1):
                    a, b = g[y][bx], g[y][bx - 1]
                    if a == 0 and b == 0 and y == 0:
                        yp, why = 0, "wall"
                        break
                    if a in O and (b in O or b == 0):
                        yp, why = y + 1, (a, b)
                        break
                    if b in O and a == 0:
                        why = "left"
                        break
                    if (a, b) != (0, 0):
                        skipped.add((a, b))
                if yp < 0:
                    f.add(("yp", why, tuple(sorted(skipped)), free))
                else:
                    d = 5 * (y0 - yp)
                    c = "B_" if d <= L else "F"
                    o2 = ("yp", why, tuple(sorted(skipped)), free,
                          "eq" if d == L else "next" if 0 < d - L <= 5 else c)
                    f.add(o2)
                    out.append((c, (bx, yp), o2))
            if free and not bgen:
                out.append(("B__", (bx, y0), ("B__",) + o))
        else:
            f.add(("B", "out"))
        if ay < L:
            q = [x for x in range(x0, bx - 1) if g[ay][x] == 3 and g[ay][x + 1] == 0]
            for x in q:
                out.append(("C", (x + 1, ay), ("C", min(len(q), 2), x == x0, x == bx - 2, w > 3)))
            f.add(("nC", min(len(q), 2)))
            e = ("C-", g[ay][bx - 1], g[ay][bx] if bx < W else "wall")
            f.add(e)
        if bx < W:
            q = [y for y in range(y0, ay - 1) if g[y][bx] == 3 and g[y + 1][bx] == 0]
            for y in q:
                out.append(("D", (bx, y + 1), ("D", min(len(q), 2), y == y0, y == ay - 2, l > 3)))
            f.add(("nD", min(len(q), 2)))
            e = ("D-", g[ay - 1][bx], g[ay][bx] if ay < L else "wall")
            f.add(e)
        return out

    def first(self, pt, rem, tag=None):
        x, y = pt
        for n, i in enumerate(rem):
            w, l = self.pb["items"][i - 1]["w"], self.pb["items"][i - 1]["l"]
            if self.g[y][x]:
                if tag:
                    self.f.add(("occupied", tag))
                return None
            if self.fit(x, y, w, l, "u") if tag else self.quick(x, y, w, l):
                return n, w, l, False
            if self.pb["rot"]:
                if self.fit(x, y, l, w, "r") if tag else self.quick(x, y, l, w):
                    return n, l, w, True
        return None

    def quick(self, x, y, w, l):
        return x + w <= self.W and y + l <= self.L and \
            not any(any(self.g[b][x:x + w]) for b in range(y, y + l))

    def run(self):
        pb, f = self.pb, self.f
        rem = list(pb["seq"])
        strat = pb["strat"]
        for cn, C in enumerate(pb["conts"]):
            if not rem:
                f.add(("unused container", min(cn, 2)))
                break
            self.W, self.L = C["W"], C["L"]
            self.g = [[0] * self.W for _ in range(self.L)]
            pts = {k: [] for k in gen.CLASSES}
            cur, cls, org = (0, 0), "O", ("O",)
            area = 0
            while True:
                full = not pb["strip"] and area == self.W * self.L
                if cur is None or not rem or full:
                    absent = any(pts[k] for k in pts if k not in strat)
                    f.add(("close", cur is None, not rem, full, absent, pb["strip"],
                           min(cn, 2), cn == len(pb["conts"]) - 1))
                    if cur is None and rem:
                        for k in pts:
                            if k not in strat and any(self.first(p[0], rem) for p in pts[k]):
                                f.add(("absent", k))
                    break
                hit = self.first(cur, rem, cls)
                if cls != "O":
                    # would another point have been filled instead?
                    for k in pts:
                        if pts[k]:
                            p0 = pts[k][0]
                            h2 = self.first(p0[0], rem)
                            if hit and h2 and p0[0] != cur:
                                f.add(("fifo" if k == cls else "pref", cls, k))
                            if hit and len(pts[k]) > 1 and pts[k][-1][0] not in (cur, p0[0]) and \
                                    k == cls and self.first(pts[k][-1][0], rem):
                                f.add(("fifo3", cls))
                if hit:
                    n, w, l, rt = hit
                    f.add(("place", min(n, 3), rt, w == l, cls))
                    f.add(("used", org))
                    f.add(("thin", cls, w == 1, l == 1, w == 2, l == 2))
                    rem.pop(n)
                    self.put(cur[0], cur[1], w, l)
                    area += w * l
                    for k, p, o in self.gens(cur[0], cur[1], w, l):
                        pts[k].append((p, o))
                else:
                    f.add(("drop", cls))
                    f.add(("dropped", org))
                cur = None
                for k in strat:
                    if pts[k]:
                        (cur, org), cls = pts[k].pop(0), k
                        break
            f.add(("leftover", min(cn, 3), min(len(rem), 3)))
        return self.f


def slim(pb):
    return {k: pb[k] for k in ("strip", "conts", "items", "rot", "strat", "seq")}


def fresh(r):
    x = r.random()
    if x < 0.5:
        pb = gen.problem(r, size=r.choice([4, 5, 6, 8, 10, 12, 15, 20]), conts=1, kmax=18,
                         strat=gen.strategy(r, r.choice(["first", "first", "single", "perm"])))
    elif x < 0.75:
        pb = gen.problem(r, size=r.choice([3, 4, 5]), conts=r.choice([1, 1, 2]), kmax=8)
    else:
        pb = gen.problem(r)
    pb = slim(pb)
    pb["items"] = [pb["items"][j - 1] for j in pb["seq"]]
    pb["seq"] = list(range(1, len(pb["items"]) + 1))
    return pb


def cost(pb):
    return len(pb["items"]) * 20 + sum(c["W"] + c["L"] for c in pb["conts"])


def worker(a):
    seed, secs, pool, counts = a
    r = random.Random(seed)
    have = {}
    new = []
    end = time.time() + secs
    n = 0
    while time.time() < end:
        n += 1
        src = new if new and r.random() < 0.5 else pool
        pb = gen.neighbour(r, r.choice(src)) if src and r.random() < 0.7 else fresh(r)
        if max(max(c["W"], c["L"]) for c in pb["conts"]) > 60:
            continue
        fs = Twin(pb).run()
        rare = [x for x in fs if counts.get(repr(x), 0) + have.get(repr(x), 0) < KEEP]
        if rare:
            new.append(pb)
            for x in fs:
                have[repr(x)] = have.get(repr(x), 0) + 1
    return new, n


def reduce(pbs):
    """few small problems with every feature KEEP times"""
    fs = [(pb, {repr(x) for x in Twin(pb).run()}) for pb in pbs]
    fs.sort(key=lambda e: cost(e[0]))
    counts, out = {}, []
    tot = {}
    for _, f in fs:
        for x in f:
            tot[x] = tot.get(x, 0) + 1
    # rarest features first
    order = sorted(range(len(fs)), key=lambda n: (min(tot[x] for x in fs[n][1]), cost(fs[n][0])))
    for n in order:
        pb, f = fs[n]
        if pb.get("keep") or any(counts.get(x, 0) < KEEP for x in f):
            out.append(pb)
            for x in f:
                counts[x] = counts.get(x, 0) + 1
    return out, counts


def load():
    return json.load(open(OUT)) if os.path.exists(OUT) else []


def save(pbs):
    with open(OUT, "w") as f:
        f.write("[\n" + ",\n".join(json.dumps(p, separators=(",", ":")) for p in pbs) + "\n]\n")


def search(secs, procs):
    pool = load()
    _, counts = reduce(pool)
    end = time.time() + secs
    rnd = random.Random().randrange(10 ** 9)
    while time.time() < end:
        rnd += 100
        with Pool(procs) as p:
            res = p.map(worker, [(rnd + i, min(30, secs), pool, counts) for i in range(procs)])
        for x, _ in res:
            pool += x
        pool, counts = reduce(pool)
        print("tried", sum(n for _, n in res), "corpus", len(pool), "features", len(counts),
              "single", sum(1 for v in counts.values() if v == 1), flush=True)
        save(pool)


if __name__ == "__main__":
    if sys.argv[1] == "search":
        search(int(sys.argv[2]), int(sys.argv[3]) if len(sys.argv) > 3 else 4)
    else:
        c = reduce(load())[1]
        for k in sorted(c):
            print(c[k], k)
