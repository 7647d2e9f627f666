"""The registered checks, one function per property."""
import json
import campaigns
import common
import gen
import rec
from common import Check, SEED


def sample(cases, n=2):
    return [{k: c[k] for k in c if k in ("pb", "sol", "key", "util")} for c in cases[:n]]


def _cfg(invs, extra=""):
    return "SPECIFICATION Spec\n" + "".join("INVARIANT %s\n" % i for i in invs) + \
        "CHECK_DEADLOCK FALSE\n" + extra


def packing_mc(ch, invs=("Feasible", "PointsFree", "OneOwner")):
    n = ch.n(3, 5)
    ch.model("PackingMC", _cfg(invs, "CONSTANTS\n MaxW = 4\n MaxL = 4\n MaxDim = 3\n MaxItems = %d\n"
                               % n), label="W,L<=4 dims<=3 items<=%d" % n)


def plan(ch, scale=1.0):
    q = {"solve": 6000, "solve-big": 60, "solve-many": 300, "solve-wide": 150, "solve-shipped": 100, "hist": 300, "ls": 500, "hs": 150, "mp": 24}
    t = {"solve": 120000, "solve-big": 1500, "solve-many": 6000, "solve-wide": 3000, "solve-shipped": 2000,
         "hist": 6000, "ls": 8000, "hs": 2500, "mp": 300}
    src = q if ch.quick() else t
    src["solve-corpus"] = len(gen.corpus()) / scale
    src["solve-near"] = ch.n(1500, 40000)
    return [(k, max(1, int(v * scale))) for k, v in src.items()]


def solutions(ch, invs, scale=1.0):
    cases = campaigns.solution_cases(ch, plan(ch, scale))
    ch.samples = sample([c for c in cases if c["sol"] and any(c["sol"])])
    ch.extra["placements"] = sum(len(s) for c in cases for s in c["sol"])
    for i in range(0, len(cases), 40000):
        ch.validate("SolutionTrace", _cfg(("NoError",) + invs), cases[i:i + 40000])
        if ch.violations:
            break


def P01(ch):
    packing_mc(ch)
    solutions(ch, ("Contained", "Separate"))


def P02(ch):
    solutions(ch, ("AllContainers", "ItemsFaithful", "ItemsOnce"))


def P03(ch):
    solutions(ch, ("ValuesTrue", "ValuesInRange", "TotalTrue"))


# --------------------------------------------------------------- P04, P05
def rec_construct(a):
    kind, n = a
    r, pb = construct_problem(kind, n)
    if n % 97 == 11:  # nothing to place
        pb["seq"] = []
    p = rec.build(pb)
    p.solve(sequence=rec.form([pb["ids"][j - 1] for j in pb["seq"]], n))
    sol, util, err = rec.snapshot(p, pb)
    return rec.case(pb, sol, util, err, key=[kind, n])


def construct_problem(kind, n):
    r = gen.rng_for(SEED, kind, n)
    if kind == "rule":  # order, first fit, rotation, leftovers
        pb = gen.problem(r)
    elif kind == "rule-big":
        pb = gen.problem(r, size=r.choice([30, 40, 60]), kmax=40)
    elif kind == "corpus":
        pb = gen.named(r, gen.corpus()[n])
    elif kind == "near":
        pb = gen.named(r, gen.neighbour(r, r.choice(gen.corpus())))
    elif kind == "many":
        pb = gen.many(r)
    elif kind == "wide":
        pb = gen.wide(r)
    elif kind == "crowd":
        pb = gen.crowd(r)
    elif kind == "shipped":
        pb = gen.shipped(r)
    elif kind == "full":  # large containers filled up to the last cells
        m = r.choice([32, 40, 50])
        pb = gen.problem(r, size=m, conts=r.choice([1, 2]), fam="tile", strip=False)
        its = gen.cut(r, pb["conts"][0]["W"], pb["conts"][0]["L"], r.randint(2, 9))
        its.sort(key=lambda d: (-d[0], -d[1]))
        small = r.choice([1, 1, 2])
        a, b = its.pop()
        if a > small and b > small:  # a corner of the last piece is left to small items
            its += [(a, b - small), (a - small, small)]
        its += [(1, 1)] * r.randint(1, 6)
        pb.update(items=[{"w": x, "l": y} for x, y in its], seq=list(range(1, len(its) + 1)),
                  ids=gen.IDS[0](len(its), r))
    elif kind == "points":  # dense arrangements, one class preferred
        m = r.choice([5, 6, 8, 10, 10, 12, 15, 15, 20])
        pb = gen.problem(r, size=m, conts=1, kmax=18,
                         fam=r.choice(["mix", "thin", "probe", "pin", "small", "tile"]),
                         strat=gen.strategy(r, r.choice(["first", "first", "single", "perm"])))
    else:  # tiny: exhaustive-like coverage of small arrangements
        m = r.choice([3, 4, 5])
        pb = gen.problem(r, size=m, conts=1, kmax=8,
                         strat=gen.strategy(r, r.choice(["first", "single", "perm", "subset"])))
    return r, pb


def construct(ch, plan, invs):
    cases = []
    for kind, count in plan:
        for spec, c, err in common.record(rec_construct, [(kind, n) for n in range(count)]):
            if err:
                pb = construct_problem(*spec)[1]
                c = rec.case(pb, None, None, err, key=list(spec))
            cases.append(c)
        ch.extra.setdefault("recorded", {})[kind] = count
    ch.samples = sample([c for c in cases if c["sol"] and any(c["sol"])])
    for i in range(0, len(cases), 20000):
        ch.validate("ConstructTrace", _cfg(invs), cases[i:i + 20000])
        if ch.violations:
            break
    return cases


CINV = ("NoError", "ConformsSolution", "ConformsUtil", "SpecSafe")


def P04(ch):
    construct(ch, [("rule", ch.n(7000, 150000)), ("rule-big", ch.n(60, 1500)),
                   ("full", ch.n(60, 1500)), ("many", ch.n(150, 3000)),
                   ("wide", ch.n(100, 2500)), ("shipped", ch.n(60, 1500)), ("crowd", ch.n(26, 600)),
                   ("corpus", len(gen.corpus())), ("near", ch.n(1000, 30000))], CINV)


def P05(ch):
    packing_mc(ch)
    construct(ch, [("points", ch.n(5000, 120000)), ("tiny", ch.n(3000, 60000)),
                   ("wide", ch.n(100, 2500)), ("shipped", ch.n(60, 1500)),
                   ("corpus", len(gen.corpus())), ("near", ch.n(2000, 60000))], CINV)


# -------------------------------------------------------------------- P06
def _ctx(n):
    import det
    return det.contexts(n)


def _search(n):
    import det
    return det.search_runs(n)


def _full(n):
    import det
    return det.full_hypersearch(n)


def _child(a):
    import det
    return det.in_child(a)


def P06(ch):
    N, S, F = ch.n(400, 8000), ch.n(150, 2000), ch.n(6, 60)
    seeds = ch.n((1, 2), (1, 2, 3, 4, 5, 6))
    groups, ccases = {}, []

    def fail(key, err):
        g = groups.setdefault(json.dumps(key), [])
        if not g:
            g.append({"ctx": "-", "out": ""})
        g.append({"ctx": "error", "out": "ERROR " + err})

    for what, f, n in (("ctx", _ctx, N), ("search", _search, S), ("full", _full, F)):
        for spec, res, err in common.record(f, range(n), limit=60):
            if err:
                fail([what, spec], err)
            elif what == "ctx":
                groups[json.dumps([what, spec])] = res[0]
                ccases += res[1]
            elif what == "search":
                for kind in ("ls", "hs"):
                    groups[json.dumps([what + kind, spec])] = [
                        {"ctx": k, "out": v} for k, v in res.items() if k.startswith(kind)]
            else:
                groups[json.dumps([what, spec])] = [{"ctx": "here", "out": res}]
    # other processes, other hash seeds
    jobs = [["ctx", n] for n in range(0, N, 4)] + [["search", n] for n in range(S)] + \
        [["full", n] for n in range(F)]
    parts = [jobs[i::4] for i in range(4)]
    for (seed, js), res, err in common.record(_child, [(s, p) for s in seeds for p in parts],
                                              limit=700, chunk=1):
        if err:
            fail(["child", seed], err)
            continue
        for (what, n), (v, e) in zip(js, res):
            ctx = "hash seed %s" % seed
            if e:
                fail([what, n], e)
            elif what == "search":
                for kind, out in v.items():
                    groups.setdefault(json.dumps([what + kind, n]), []).append(
                        {"ctx": ctx, "out": out})
            else:
                groups.setdefault(json.dumps([what, n]), []).append({"ctx": ctx, "out": v})
    cases = [{"key": json.loads(k), "runs": v} for k, v in groups.items()]
    ch.samples = cases[:1]
    ch.extra["contexts"] = sum(len(c["runs"]) for c in cases)
    ch.validate("DetTrace", _cfg(("SameOutcome",)), cases)
    if not ch.violations:
        ch.validate("ConstructTrace", _cfg(CINV), ccases)
    if not ch.violations:
        hist_check(ch, ch.n([("hist-calm", 1500)], [("hist-calm", 30000)]),
                   ("UsesCurrentData",))


ALL = {k: v for k, v in list(globals().items()) if k[0] == "P" and k[1:].isdigit()}


# --------------------------------------------------- P10, P11, P15, P16 (LS)
def ls_model(ch):
    inv = ("BestIsNode", "NothingBetter", "NeverWorse", "LocalOptimum")
    extra = "PROPERTY Ends\nPROPERTY Improves\nCONSTANTS\n N = %d\n MaxV = %d\n WithTime = TRUE\n"
    ch.model("LocalSearchMC", _cfg(inv, extra % ((3, 2) if ch.quick() else (3, 4))),
             label="all landscapes, n=3")


def ls_cases(ch, plan):
    import lsrec
    cases = []
    for kind, count in plan:
        for spec, c, err in common.record(lsrec.run, [(kind, n) for n in range(count)], limit=60):
            cases.append(lsrec.error_case(list(spec), err) if err else c)
        ch.extra.setdefault("recorded", {})[kind] = count
    ch.extra["evaluations"] = sum(len(c["evs"]) for c in cases)
    ch.samples = [{k: c[k] for k in c if k != "evs"} for c in cases[:2]]
    return cases


def ls_validate(ch, cases, invs):
    batch, size = [], 0
    for c in cases + [None]:
        if c is not None:
            batch.append(c)
            size += len(c["evs"]) + 1
        if batch and (c is None or size > 60000):
            ch.validate("LocalSearchTrace", _cfg(("NoError",) + invs), batch)
            batch, size = [], 0
            if ch.violations:
                return


LSPLAN_Q = [("ls", 900), ("ls-brink", 160), ("ls-big", 6), ("ls-shipped", 12), ("ls-tall", 16), ("eng", 900), ("eng-big", 10)]
LSPLAN_T = [("ls", 20000), ("ls-brink", 3000), ("ls-big", 150), ("ls-shipped", 400), ("ls-tall", 300), ("eng", 20000), ("eng-big", 60)]


def ls_inside(ch, invs):
    """the local searches inside hypersearches and their workers"""
    if not ch.violations:
        _, _, lss = hyper_cases(ch, [("sp", ch.n(300, 5000)), ("mp", ch.n(60, 1000))])
        ch.extra["local_searches_inside_hypersearches"] = len(lss)
        ls_validate(ch, lss, invs)


def P10(ch):
    ls_model(ch)
    ls_validate(ch, ls_cases(ch, ch.n(LSPLAN_Q, LSPLAN_T)), ("BestReturned",))
    ls_inside(ch, ("BestReturned",))


def P11(ch):
    ls_model(ch)
    ls_validate(ch, ls_cases(ch, ch.n(LSPLAN_Q, LSPLAN_T)), ("Neighbourhood",))
    ls_inside(ch, ("Neighbourhood",))


ALL = {k: v for k, v in list(globals().items()) if k[0] == "P" and k[1:].isdigit()}


# ------------------------------------------------------ hypersearch P12-P16
def hs_model(ch, faults=True):
    def run(n, w, props, label, locked="FALSE", eof="TRUE", large="TRUE", f=faults, how=ch.model):
        how("HyperSearchMC", _cfg(
            ("BestOfSurvivors", "ErrorIffAllFailed", "StopsAtOptimum", "Exhaustive"),
            "%s\nCONSTANTS\n N = %d\n Wn = %d\n MaxV = 2\n Faults = %s\n Locked = %s\n"
            " EofSeen = %s\n Large = %s\n" % (props, n, w, "TRUE" if f else "FALSE",
                                             locked, eof, large)),
            label="%s, N=%d workers=%d" % (label, n, w))
    ret = "PROPERTY Returns"
    if ch.quick():
        run(3, 2, ret, "large outputs")
        if faults:
            run(2, 2, ret, "small outputs", large="FALSE")
    else:
        run(4, 2, ret, "large outputs")
        run(3, 3, "", "large outputs")
        run(3, 2, ret, "small outputs", large="FALSE")
    if faults:
        run(2, 2, ret, "array with a lock", locked="TRUE", how=ch.refuted)
        run(2, 2, ret, "unseen end of a worker", eof="FALSE", how=ch.refuted)


def hyper_cases(ch, plan):
    import hyperrec
    sps, mps, lss = [], [], []
    for kind, count in plan:
        multi = kind.startswith("mp")
        lim = 40
        for spec, res, err in common.record(hyperrec.run, [(kind, n) for n in range(count)],
                                            limit=lim, chunk=5 if multi else None):
            if err:
                (mps if multi else sps).append(
                    (hyperrec.mp_error if multi else hyperrec.sp_error)(list(spec), err))
            else:
                (mps if multi else sps).append(res[0])
                lss += res[1]
        ch.extra.setdefault("recorded", {})[kind] = count
    ch.samples = (sps + mps)[:2]
    if mps:
        ch.extra["mp"] = {
            "workers_recorded": sum(len(c["logs"]) for c in mps),
            "faults_injected": sum(1 for c in mps for q in c["logs"] for x in q
                                   if x["fault"] != "none"),
            "schedules_enforced": sum(1 for c in mps if any(x["ctl"] for q in c["logs"] for x in q)),
            "all_failed": sum(1 for c in mps if c["fin"]["raised"])}
    return sps, mps, lss


def hv(ch, module, cases, invs):
    if cases and not ch.violations:
        ch.validate(module, _cfg(("NoError",) + invs), cases)


def P12(ch):
    sps, _, _ = hyper_cases(ch, [("sp", ch.n(2500, 40000))])
    hv(ch, "HyperTrace", sps, ("BestKept", "AllTried", "GivenThrottle"))


def P13(ch):
    hs_model(ch, faults=False)
    _, mps, _ = hyper_cases(ch, [("mp", ch.n(240, 3000)), ("mp-sp", ch.n(60, 800))])
    hv(ch, "HyperMPTrace", mps, ("BestOfWorkers", "Divided", "InOrder", "AtMostWorkers", "GivenThrottle",
                                 "KnownStrategies",
                                 "AllTried", "SameAsSingle", "StopsAtOthersOptimum"))
    start_methods(ch, ch.n(40, 600), ("Sound", "BestOfAll", "BestOfFirst", "HeightKept"))


def start_methods(ch, count, invs):
    import spawned
    if ch.violations:
        return
    cases = []
    for n, res, err in common.record(spawned.record, list(range(count)), limit=400, chunk=1):
        cases += [spawned.error(["start", n], err)] if err else res
    ch.validate("StartTrace", _cfg(("NoError",) + invs), cases)
    ch.extra.setdefault("recorded", {})["start methods"] = len(cases)


def P14(ch):
    hs_model(ch)
    _, mps, _ = hyper_cases(ch, [("mp-fault", ch.n(260, 3000)), ("mp-race", ch.n(30, 400)),
                                  ("mp-big", ch.n(6, 24)), ("mp-bigfault", ch.n(16, 200))])
    hv(ch, "HyperMPTrace", mps, ("ErrorIffAllFailed", "NoPartialResult", "NoneLeft",
                                 "BestOfWorkers"))
    start_methods(ch, ch.n(40, 600), ("ErrorIffAllFailed", "NoPartialResult", "NoneLeft", "Sound"))


def P15(ch):
    ls_validate(ch, ls_cases(ch, ch.n([("ls", 1800), ("ls-tall", 40)],
                                  [("ls", 30000), ("ls-tall", 200)])), ("Heights",))
    if ch.violations:
        return
    sps, mps, lss = hyper_cases(ch, [("sp", ch.n(1200, 20000)), ("mp", ch.n(100, 1500))])
    hv(ch, "HyperTrace", sps, ("Heights",))
    hv(ch, "HyperMPTrace", mps, ("Heights", "MinHeights", "Complete", "HeightKept"))
    hv(ch, "LocalSearchTrace", lss, ("Heights",))


def P16(ch):
    ls_validate(ch, ls_cases(ch, ch.n([("ls", 900), ("ls-brink", 160), ("eng", 600)],
                                  [("ls", 20000), ("ls-brink", 3000), ("eng", 10000)])),
                ("Stops",))
    if ch.violations:
        return
    sps, mps, lss = hyper_cases(ch, [("sp", ch.n(1500, 20000)), ("mp", ch.n(150, 1500))])
    hv(ch, "HyperTrace", sps, ("Stops",))
    hv(ch, "HyperMPTrace", mps, ("StopsAtTime", "StopsAtOptimum", "StopsAtOthersOptimum",
                                 "AllTried"))
    hv(ch, "LocalSearchTrace", lss, ("Stops",))


ALL = {k: v for k, v in list(globals().items()) if k[0] == "P" and k[1:].isdigit()}


# -------------------------------------------- operation histories P07-P09, P17
def hist_model(ch, strip):
    ch.model("ProblemMC", "SPECIFICATION Spec\nVIEW View\nINVARIANT DataValid\n"
             "INVARIANT HeightsValid\nINVARIANT SolutionCurrent\nPROPERTY StripFixed\n"
             "PROPERTY SortKeeps\nCHECK_DEADLOCK FALSE\nCONSTANTS\n NIds = %d\n MaxDim = %d\n"
             " StripMode = %s\n MaxH = %d\n" % (
                 (2, 2, "TRUE", 11) if strip and ch.quick() else (3, 2, "TRUE", 21) if strip
                 else (2, 2, "FALSE", 1) if ch.quick() else (2, 3, "FALSE", 1)),
             label="strip" if strip else "bin")


def hist_cases(ch, plan):
    import hist
    cases = []
    for kind, count in plan:
        for spec, c, err in common.record(hist.run, [(kind, n) for n in range(count)], limit=60):
            cases.append(hist.error_case(list(spec), err) if err else c)
        ch.extra.setdefault("recorded", {})[kind] = count
    ops = {}
    ch.sols = [s for c in cases for s in c.pop("sols", ())]
    for c in cases:
        for s in c["steps"]:
            q = ops.setdefault(s["op"]["op"], [0, 0])
            q[s["err"] != "none"] += 1
    ch.extra["operations_ok_failed"] = ops
    ch.samples = [dict(c, st=c["st"][:3], steps=c["steps"][:2]) for c in cases[:2]]
    return cases


def hist_check(ch, plan, invs):
    cases = hist_cases(ch, plan)
    for i in range(0, len(cases), 20000):
        ch.validate("ProblemTrace", _cfg(("NoError",) + invs), cases[i:i + 20000])
        if ch.violations:
            break


def P07(ch):
    hist_model(ch, False)
    hist_check(ch, ch.n([("hist", 6000), ("hist-calm", 1200)],
                        [("hist", 150000), ("hist-calm", 30000)]),
               ("AlwaysValid", "Operations", "ErrorKinds", "NoStaleSolution", "Together",
                "UsesCurrentData"))


def P08(ch):
    hist_model(ch, True)
    hist_check(ch, ch.n([("hist-strip", 6000)], [("hist-strip", 150000)]),
               ("StripFixed", "StripInitial", "HeightsValid", "HeightRules", "StripLocked"))


def P09(ch):
    hist_check(ch, ch.n([("hist", 6000), ("hist-calm", 600)],
                        [("hist", 150000), ("hist-calm", 15000)]),
               ("SolvingKeeps", "CallerKeeps", "HandlesKeep", "PassiveKeeps"))


def P17(ch):
    hist_model(ch, False)
    hist_check(ch, ch.n([("hist", 4000), ("hist-near", 4000)],
                        [("hist", 80000), ("hist-near", 80000)]), ("Ordered",))


ALL = {k: v for k, v in list(globals().items()) if k[0] == "P" and k[1:].isdigit()}


# ------------------------------------------------------------ P18, P19
def report_check(ch, plan, invs):
    import report
    cases = []
    for kind, count in plan:
        for spec, c, err in common.record(report.run, [(kind, n) for n in range(count)], limit=60):
            cases.append(report.error_case(list(spec), err) if err else c)
        ch.extra.setdefault("recorded", {})[kind] = count
    ch.samples = [c for c in cases if len(json.dumps(c)) < 3000][:2]
    for i in range(0, len(cases), 20000):
        ch.validate("ReportTrace", _cfg(("NoError", "NothingChanged") + invs), cases[i:i + 20000])


def P18(ch):
    report_check(ch, ch.n([("log", 4000), ("log-big", 4)], [("log", 100000), ("log-big", 20)]),
                 ("LogPresent", "LogPercent", "LogContainers", "LogUtil", "LogHeight", "LogRest",
                  "LogSame"))


def P19(ch):
    report_check(ch, ch.n([("fig", 700), ("fig-big", 6)], [("fig", 15000), ("fig-big", 24)]),
                 ("Writes", "WrittenTrue", "Shows", "Size"))


ALL = {k: v for k, v in list(globals().items()) if k[0] == "P" and k[1:].isdigit()}


# ------------------------------------------------------------------- P20
def P20(ch):
    import settings
    specs = [("opt", n, 16) for n in range(16)] + [("ver", n, 8) for n in range(8)] + \
        [("eff", n) for n in range(ch.n(400, 8000))] + \
        [("strat", n) for n in range(ch.n(200, 4000))]
    cases = [settings.domain()]
    for spec, c, err in common.record(settings.run, specs, limit=120, chunk=8):
        cases += [settings.error_case(list(spec), err)] if err else c
    kinds = {}
    for c in cases:
        kinds[c["what"]] = kinds.get(c["what"], 0) + 1
    ch.extra["recorded"] = kinds
    ch.samples = cases[1:3]
    for i in range(0, len(cases), 50000):
        ch.validate("SettingsTrace", _cfg(("NoError", "Decided", "HistoryDecided", "Effective",
                                           "FigureVersions", "StrategyDecided", "Covered")),
                    cases[i:i + 50000])
        if ch.violations:
            break


ALL = {k: v for k, v in list(globals().items()) if k[0] == "P" and k[1:].isdigit()}


# --------------------------------------------------------------- P21, P22
def pool_check(ch, plan, invs):
    import pools
    cases = []
    for kind, count in plan:
        for spec, c, err in common.record(pools.run, [(kind, n) for n in range(count)], limit=60,
                                          chunk=2 if kind in ("split", "tried") else None,
                                          procs=4 if kind in ("split", "tried") else None):
            cases += [pools.error_case(list(spec), err)] if err else c
        ch.extra.setdefault("recorded", {})[kind] = count
    ch.samples = [c for c in cases if len(json.dumps(c)) < 4000][:3]
    for i in range(0, len(cases), 20000):
        ch.validate("PoolTrace", _cfg(("NoError",) + invs), cases[i:i + 20000])
        if ch.violations:
            break


def P21(ch):
    pool_check(ch, ch.n([("pool", 16), ("seed", 6), ("split", 7), ("tried", 24)],
                        [("pool", 200), ("seed", 60), ("split", 70), ("tried", 300)]),
               ("PoolComplete", "PoolDistinct", "PoolUsable", "PoolConstant", "Split", "TriedPool"))


def P22(ch):
    pool_check(ch, ch.n([("gen", 6000)], [("gen", 200000)]),
               ("GenCounts", "GenContainers", "GenItems", "GenUsable"))


ALL = {k: v for k, v in list(globals().items()) if k[0] == "P" and k[1:].isdigit()}


# -------------------------------------------------------------------- P23
def P23(ch):
    import create
    cases = []
    for spec, c, err in common.record(create.run, [("new", n) for n in range(ch.n(8000, 200000))]):
        cases.append(create.error_case(list(spec), err) if err else c)
    kinds = {}
    for c in cases:
        kinds[c["err"]] = kinds.get(c["err"], 0) + 1
    ch.extra["outcomes"] = kinds
    ch.samples = cases[:3]
    for i in range(0, len(cases), 40000):
        ch.validate("CreateTrace", _cfg(("NoError", "Decided", "Data", "Untouched", "Usable")),
                    cases[i:i + 40000])
        if ch.violations:
            break


ALL = {k: v for k, v in list(globals().items()) if k[0] == "P" and k[1:].isdigit()}


# -------------------------------------------------------------------- P24
def P24(ch):
    hist_check(ch, ch.n([("hist-read", 3000)], [("hist-read", 80000)]),
               ("ReadsTrue", "ReadsPassive", "PassiveKeeps"))

# -------------------------------------------------------------------- P25
def solving_model(ch):
    def run(how, label, h, c, s, restores):
        how("SolvingMC", _cfg(
            ("StrategyKept", "HeightSound", "Fits", "BestKept"),
            "PROPERTY HeightFalls\nPROPERTY SolveKeepsHeight\nPROPERTY SolveCut\nCONSTANTS\n"
            " MaxH = %d\n MaxC = %d\n MaxS = %d\n Restores = %s\n" % (h, c, s, restores)),
            label=label)
    run(ch.model, "solving, step by step, interrupted anywhere", 3, *ch.n((1, 2), (3, 3)), "TRUE")
    run(ch.refuted, "hypersearch not giving the strategy back", 2, 1, 1, "FALSE")


def P25(ch):
    solving_model(ch)
    hist_check(ch, ch.n([("hist-cut", 2500), ("hist", 1000)], [("hist-cut", 50000), ("hist", 20000)]),
               ("CutKeeps", "BadKeeps", "AlwaysValid", "Together", "UsesCurrentData"))
    ch.extra["solutions_after_interruptions"] = len(ch.sols)
    if ch.sols and not ch.violations:
        ch.validate("SolutionTrace", _cfg(("NoError", "Contained", "Separate", "AllContainers",
                                           "ItemsFaithful", "ItemsOnce", "ValuesTrue",
                                           "ValuesInRange", "TotalTrue")), ch.sols)

# -------------------------------------------------------------------- P26
def P26(ch):
    hist_check(ch, ch.n([("hist-strat", 2500)], [("hist-strat", 60000)]),
               ("StrategyDefault", "StrategyRules", "UsesCurrentData"))


# ----------------------------------------------------------------- P27
def P27(ch):
    import engine
    ch.model("EngineMC", _cfg(("Settled", "Kept", "Reported", "NeverWorse"),
                              "CONSTANTS\n N = 3\n MaxV = 2\n Steps = %d\n"
                              % ch.n(3, 5)), label="all subclasses, n<=3")
    cases, n = [], ch.n(4000, 100000)
    for spec, c, err in common.record(engine.run, [("own", j) for j in range(n)], limit=60):
        cases += [engine.error_case(list(spec), err)] if err else c
    ch.extra["recorded"] = {"own": n}
    ch.extra["calls"] = sum(len(c["evs"]) for c in cases)
    ch.extra["raised"] = sum(c["raised"] for c in cases)
    ch.samples = [dict(c, evs=c["evs"][:5]) for c in cases[:2]]
    for i in range(0, len(cases), 8000):
        ch.validate("EngineTrace", _cfg(("NoError", "Calls", "Decides", "Returned", "Reports")),
                    cases[i:i + 8000])
        if ch.violations:
            break


# ----------------------------------------------------------------- P28
def P28(ch):
    import logs
    plan = ch.n([("hist", 800), ("hist-strip", 500), ("hist-strat", 300), ("new", 1500),
                 ("eff", 100), ("tell", 200), ("fig", 260), ("many", 60), ("mp", 60)],
                [("hist", 30000), ("hist-strip", 20000), ("hist-strat", 10000), ("new", 60000),
                 ("eff", 3000), ("tell", 4000), ("fig", 3000), ("many", 1000), ("mp", 1500)])
    todo = [((kind, n),) for kind, m in plan for n in range(m)]
    todo = [x[0] for x in todo] + [("opt", n, 64) for n in range(64)] + [("ver", n, 16)
                                                                         for n in range(16)]
    cases = []
    for spec, c, err in common.record(logs.run, todo, limit=60):
        cases += [logs.error_case(list(spec), err)] if err else c
    ch.extra["recorded"] = dict(plan)
    kinds = {}
    for c in cases:
        for x in c["seq"]:
            key = "%s %s" % (x["op"], "done" if x["err"] == "none" else x["err"])
            kinds[key] = kinds.get(key, 0) + 1
    ch.extra["outcomes"] = dict(sorted(kinds.items()))
    ch.samples = [dict(c, seq=c["seq"][:4]) for c in cases[:2]]
    for i in range(0, len(cases), 20000):
        ch.validate("LogTrace", _cfg(("NoError", "ErrorsLogged", "NoFalseErrors", "Warnings",
                                      "SolutionsTold", "ExportsTold", "FailedWorkersTold")),
                    cases[i:i + 20000])
        if ch.violations:
            break


ALL = {k: v for k, v in list(globals().items()) if k[0] == "P" and k[1:].isdigit()}
