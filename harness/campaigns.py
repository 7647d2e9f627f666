"""Recording campaigns shared by the solution properties (P01-P06)."""
import math
import common
import gen
import rec
from common import SEED
from hyperpack import HyperPack, PointGenPack


class Few(HyperPack):
    """HyperPack with a small strategy pool"""
    few = None
    takes = 0  # time each candidate takes, on the virtual clock

    def evaluate_node(self, sequence):
        super().evaluate_node(sequence)
        common.vclock.now += self.takes

    def get_strategies(self, *, _exhaustive=True):
        return self.few


class Spy(Few):
    """keeps some of the candidates a search evaluates"""
    mid = None

    def evaluate_node(self, sequence):
        super().evaluate_node(sequence)
        if self.mid is not None and len(self.mid) < 400:
            self.mid.append((self.solution, self.obj_val_per_container,
                             self.calculate_obj_value(), self.container_height))


def lcm_den(pb, sol):
    den = 1
    for j, c in enumerate(pb["conts"]):
        L = max([v[2] + v[4] for v in sol[j]] or [1]) if pb["strip"] else c["L"]
        den = math.lcm(den, c["W"] * L)
    return 10 * den if den * (1 + len(pb["conts"])) <= 2000000 else 0


def sol_case(p, pb, meta, objs=None, solution=None, total=None):
    """one SolutionTrace case from the instance's (or given) solution"""
    cids = rec.cont_ids(pb)
    base = {"pb": rec.pbrec(pb), "key": meta, "sol": [], "util": [], "total": 0, "tden": 0}
    sol = p.solution if solution is None else solution
    if sorted(sol) != sorted(cids):
        return dict(base, err="containers of the solution: %r" % (list(sol),))
    nsol, err = rec.norm_solution({c: sol[c] for c in cids}, pb["ids"], cids)
    if err:
        return dict(base, err=err)
    util, err = rec.norm_util(p, pb, nsol, cids, objs)
    if err:
        return dict(base, err=err, sol=nsol)
    tden = lcm_den(pb, nsol)
    tot = p.calculate_obj_value() if total is None and isinstance(p, HyperPack) else total
    if tot is None:
        tden = 0
    if tden and not (isinstance(tot, (int, float)) and 0 <= tot < len(cids) + 1):
        return dict(base, err="total objective %r" % (tot,), sol=nsol, util=util)
    return dict(base, sol=nsol, util=util, err="none", tden=tden,
                total=round(tot * tden * 100) if tden else 0)


def current(pb, p):
    """pb with the dimensions the instance currently has"""
    q = dict(pb)
    q["items"] = [{"w": p.items[i]["w"], "l": p.items[i]["l"]} for i in pb["ids"]]
    return q


def nice(r, pb):
    """container sizes with a small common multiple of their areas"""
    for c in pb["conts"]:
        c["W"] = r.choice([1, 2, 3, 4, 6, 8, 10, 12])
        if not pb["strip"]:
            c["L"] = r.choice([1, 2, 3, 4, 5, 6, 8, 10, 12])
    return pb


def spec_of(kind, n):
    r = gen.rng_for(SEED, kind, n)
    big = kind in ("solve-big", "solve-wide", "solve-shipped")
    if kind in ("solve", "hist"):
        pb = gen.problem(r)
    elif kind == "solve-big":
        pb = gen.problem(r, size=r.choice([30, 40, 60]), kmax=40)
    elif kind == "solve-corpus":
        return r, gen.named(r, gen.corpus()[n])
    elif kind == "solve-near":
        return r, gen.named(r, gen.neighbour(r, r.choice(gen.corpus())))
    elif kind == "solve-many":
        pb = gen.many(r)
    elif kind == "solve-wide":
        pb = gen.wide(r)
    elif kind == "solve-shipped":
        pb = gen.shipped(r)
    else:
        pb = gen.problem(r, size=r.choice([3, 4, 5, 6, 8, 10]), kmax=7)
    if not big and r.random() < 0.6:
        nice(r, pb)
    if kind in ("ls", "hs", "mp"):
        for f in ("items", "seq", "ids"):
            pb[f] = pb[f][:8]
        pb["seq"] = list(range(1, len(pb["items"]) + 1))
        if pb["strip"] and r.random() < 0.4:
            pb["minh"] = r.randint(1, pb["conts"][0]["L"])
    return r, pb


def run_solutions(a):
    kind, n = a
    r, pb = spec_of(kind, n)
    meta = [kind, n]
    if kind.startswith("solve"):
        p = rec.build(pb, cls=r.choice([HyperPack, HyperPack, PointGenPack]))
        ids = [pb["ids"][j - 1] for j in pb["seq"]]
        if r.random() < 0.2 and sorted(pb["seq"]) == list(range(1, len(ids) + 1)):
            p.items = {i: dict(p.items[i]) for i in ids}
            p.solve()
        else:
            p.solve(sequence=rec.form(ids, r.randint(0, 40)), debug=r.random() < 0.02)
        return [sol_case(p, pb, meta)]
    if kind == "hist":
        return hist(r, pb, meta)
    if kind in ("ls", "hs", "mp"):
        p = rec.build(pb, cls=Spy, settings={"max_time_in_seconds": 30, **(
            {"workers_num": r.choice([2, 3])} if kind == "mp" else {})})
        p.mid = [] if kind != "mp" else None
        p.few = [tuple(gen.strategy(r, r.choice(["default", "perm", "first"])))
                 for _ in range(r.randint(1, 4))]
        if kind == "ls":
            p.local_search(throttle=r.random() < 0.7)
        else:
            p.hypersearch(orientation=r.choice(["wide", "long", None]),
                          sorting_by=r.choice([("area", True), ("perimeter", False),
                                               ("longest_side_ratio", True), None]),
                          throttle=r.random() < 0.7)
        q = current(pb, p)
        out = [sol_case(p, q, meta)]
        mid = p.mid or []
        for j in r.sample(range(len(mid)), min(4, len(mid))):
            s, o, t, h = mid[j]
            out.append(sol_case(p, q, meta + [j], objs=o, solution=s, total=t))
        return out
    raise AssertionError(kind)


def hist(r, pb, meta):
    """reach the problem through changes of another one, with solving between"""
    p = rec.build(pb)
    out = []
    ids, cids = pb["ids"], rec.cont_ids(pb)

    def grab(q, tag):
        out.append(sol_case(p, q, meta + [tag]))

    p.solve()
    grab(pb, 0)
    for step in range(1, 5):
        q = {"strip": pb["strip"], "rot": p_rot(p), "strat": list(p.potential_points_strategy)}
        op = r.choice(["item", "dim", "delitem", "additem", "cont", "cdim", "delcont", "addcont",
                       "conts", "items", "strat", "height", "ls", "rot"])
        if pb["strip"] and op in ("cont", "cdim", "delcont", "addcont", "conts"):
            op = "height"
        its = list(p.items)
        cns = list(p.containers)
        dim = lambda a, b: {a: r.randint(1, 8), b: r.randint(1, 8)}  # noqa: E731
        if op == "item":
            p.items[r.choice(its)] = dim("w", "l")
        elif op == "dim":
            p.items[r.choice(its)][r.choice("wl")] = r.randint(1, 8)
        elif op == "delitem" and len(its) > 1:
            del p.items[r.choice(its)]
        elif op == "additem":
            p.items["new%d" % step] = dim("w", "l")
        elif op == "cont":
            p.containers[r.choice(cns)] = dim("W", "L")
        elif op == "cdim":
            p.containers[r.choice(cns)][r.choice("WL")] = r.randint(1, 8)
        elif op == "delcont" and len(cns) > 1:
            del p.containers[r.choice(cns)]
        elif op == "addcont":
            p.containers["k%d" % step] = dim("W", "L")
        elif op == "conts":
            p.containers = {"z%d" % j: dim("W", "L") for j in range(r.randint(1, 3))}
        elif op == "items":
            p.items = {"y%d" % j: dim("w", "l") for j in range(r.randint(1, 6))}
        elif op == "strat":
            p.potential_points_strategy = tuple(gen.strategy(r))
        elif op == "height" and pb["strip"]:
            p.container_height = r.randint(1, 12)
        elif op == "ls" and len(its) <= 6:
            p.local_search()
        elif op == "rot":
            p.settings = {"rotation": r.random() < 0.5}
        q["rot"] = p.settings.get("rotation", True)
        q["strat"] = list(p.potential_points_strategy)
        q["ids"] = list(p.items)
        q["cids"] = list(p.containers)
        q["items"] = [{"w": d["w"], "l": d["l"]} for d in p.items.values()]
        if pb["strip"]:
            q["conts"] = [{"W": pb["conts"][0]["W"], "L": p.container_height}]
        else:
            q["conts"] = [{"W": d["W"], "L": d["L"]} for d in p.containers.values()]
        q["seq"] = list(range(1, len(q["ids"]) + 1))
        p.solve()
        c = sol_case(p, q, meta + [step, op])
        c["seq"] = q["seq"]
        out.append(c)
    return out


def p_rot(p):
    return p.settings.get("rotation", True)


def solution_cases(check, plan):
    """plan: [(kind, count)] -> recorded SolutionTrace cases"""
    import common
    cases = []
    for kind, count in plan:
        res = common.record(run_solutions, [(kind, n) for n in range(count)], limit=60,
                            procs=4 if kind == "mp" else None)
        for spec, out, err in res:
            if err:
                r, pb = spec_of(*spec)
                cases.append({"pb": rec.pbrec(pb), "sol": [], "util": [], "total": 0, "tden": 0,
                              "err": err, "key": list(spec)})
            else:
                cases += out
        check.extra.setdefault("recorded", {})[kind] = len(res)
    return cases
