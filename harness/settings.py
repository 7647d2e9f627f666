"""Recording of decisions on settings and strategies (P20)."""
import itertools
import multiprocessing.process as mpp
import os
import shutil
import sys
import tempfile

import campaigns
import common
import gen
import logs
from common import SEED, vclock
from hyperpack import HyperPack, PointGenPack
from hyperpack.abstract import AbstractLocalSearch  # noqa: F401

ABSENT = object()
FOLDER = None


def folder():
    global FOLDER
    if FOLDER is None or FOLDER[0] != os.getpid():
        d = tempfile.mkdtemp(prefix="vset")
        with open(os.path.join(d, "file"), "w") as f:
            f.write("x")
        os.makedirs(os.path.join(d, "deep", "er"))
        os.symlink(os.path.join(d, "deep"), os.path.join(d, "li nk.d"))
        FOLDER = (os.getpid(), d)
    return FOLDER[1]


VAL = {
    "rotation": {"absent": [ABSENT], "none": [None], "true": [True], "false": [False],
                 "int": [1, 0], "str": ["True", ""]},
    "time": {"absent": [ABSENT], "t1": [1], "t2": [2], "t60": [60], "tbig": [100000], "zero": [0], "neg": [-1, -60],
             "float": [1.0, 0.5, 60.5], "none": [None], "str": ["60"]},
    "workers": {"absent": [ABSENT], "none": [None], "w1": [1], "w2": [2], "w3": [3], "w4": [4],
                "zero": [0], "neg": [-1, -4], "float": [2.0, 1.5], "str": ["2"]},
    "type": {"absent": [ABSENT], "none": [None], "html": ["html"], "image": ["image"],
             "bad": ["HTML", "", "png"], "nonstr": [1, ["html"]]},
    "path": {"absent": [ABSENT], "none": [None], "ok": ["ok"], "missing": ["missing"],
             "file": ["file"], "nonstr": [5, ["x"]]},
    "format": {"absent": [ABSENT], "none": [None], "pdf": ["pdf"], "png": ["png"],
               "jpeg": ["jpeg"], "webp": ["webp"], "svg": ["svg"], "bad": ["gif", "PNG", "", "jpg"],
               "nonstr": [3, ["png"]]},
    "name": {"absent": [ABSENT], "none": [None], "ok": ["Fig_1-a", "x"], "len45": ["n" * 45, "n" * 44 + "-", "-" * 45, "_" * 44 + "Z", "-", "_", "9" * 45],
             "len46": ["n" * 46, "n" * 80], "empty": [""],
             "badchar": ["a b", "a.b", "../x", "a/b", "é", "a" * 44 + "!", "Fig\n", "x.html", "x.pdf", "x.pdf.png", "%d", "x:y", "x\\y", "x+y", "x.svg/..", "png.", ".jpeg", "x.webp",
                     "n" * 45 + "\n", "\n", " x", "x\t"], "nonstr": [7, ["a"]]},
    "width": {"absent": [ABSENT], "none": [None], "pos": [1, 1700], "zero": [0], "neg": [-1],
              "float": [10.0, "10"]},
    "show": {"absent": [ABSENT], "true": [True], "false": [False], "other": [1, "yes", None]},
}
VAL["height"] = VAL["width"]
EXP = ("type", "path", "format", "name", "width", "height")
KEYS = {"rotation": "rotation", "time": "max_time_in_seconds", "workers": "workers_num",
        "name": "file_name"}


def put(d, opt, code, r):
    v = r.choice(VAL[opt][code])
    if v is ABSENT:
        return
    if opt == "path" and code in ("ok", "missing", "file"):
        v = {"ok": r.choice([folder(), folder(), os.path.join(folder(), "li nk.d"),
                             os.path.join(folder(), "deep", "er", "..")]), "missing": os.path.join(folder(), "no", "such"),
             "file": os.path.join(folder(), "file")}[code]
    d[KEYS.get(opt, opt)] = v


def build(s, r):
    if s["kind"] == "other":
        return r.choice([[1], "settings", 5, ("rotation", True), True, [], "", 0, (), False, set()])
    d = {}
    for o in ("rotation", "time", "workers"):
        put(d, o, s[o], r)
    f = s["f"]
    if f["fig"] == "empty":
        d["figure"] = {}
    elif f["fig"] == "other":
        d["figure"] = r.choice([None, [], "show", 5, True])
    elif f["fig"] == "dict":
        x = d["figure"] = {}
        put(x, "show", f["show"], r)
        if f["export"] == "other":
            x["export"] = r.choice([None, [], "html", True])
        elif f["export"] == "dict":
            e = x["export"] = {}
            for o in EXP:
                put(e, o, f["e"][o], r)
            if r.random() < 0.5:
                x["export"] = dict(reversed(list(e.items())))
        if not x:
            # neither an export nor show
            x["other"] = 1
    return d


E0 = dict(type="html", path="ok", format="absent", name="absent", width="absent", height="absent")
F0 = dict(fig="absent", export="absent", show="absent", e=E0)
S0 = dict(cls="HyperPack", kind="dict", rotation="absent", time="absent", workers="absent", f=F0)
CS = {"c": {"W": 2, "L": 1}}
IT = {"i": {"w": 1, "l": 2}}


def apply(s, r, how, p=None):
    """returns (instance, error)"""
    cls = campaigns.Few if s["cls"] == "HyperPack" else PointGenPack
    st = build(s, r)
    try:
        with logs.seen("set"):
            if p is None and (how == "ctor" or r.random() < 0.1):
                p = cls(containers=CS, items=IT, settings=st)
            else:
                if p is None:
                    p = cls(containers=CS, items=IT)
                if how == "place" and isinstance(st, dict):
                    p.settings.clear()
                    p.settings.update(st)
                    p.validate_settings()
                else:
                    p.settings = st
        return p, "none"
    except common.CaseTimeout:
        raise
    except Exception as e:
        return p, type(e).__name__


PV = [5, 24, 1]
KV = [0, 2, 1]


def opt_cases(part, of):
    """the part-th of the decisions on single settings"""
    out = []
    todo = []
    for cls in ("HyperPack", "PointGenPack"):
        for a, b, c in itertools.product(VAL["rotation"], VAL["time"], VAL["workers"]):
            todo.append(dict(S0, cls=cls, rotation=a, time=b, workers=c))
        for f, x, h in itertools.product(("absent", "empty", "other", "dict"),
                                         ("absent", "other", "dict"), VAL["show"]):
            for t in ("html", "image", "bad"):
                for rot in ("absent", "false", "str"):
                    todo.append(dict(S0, cls=cls, rotation=rot,
                                     f=dict(fig=f, export=x, show=h,
                                            e=dict(E0, type=t, format="png"))))
        todo.append(dict(S0, cls=cls, kind="other"))
    for q in itertools.product(*(VAL[o] for o in EXP)):
        e = dict(zip(EXP, q))
        bad = sum(c not in ("absent", "ok", "html", "image", "png", "pos") for c in q)
        if bad <= 2:
            todo.append(dict(S0, f=dict(fig="dict", export="dict", show="absent", e=e)))
    for n, s in enumerate(todo):
        if n % of != part:
            continue
        r = gen.rng_for(SEED, "opt", n)
        _, err = apply(s, r, r.choice(["ctor", "assign", "place"]))
        out.append({"what": "opt", "s": s, "plotly": PV, "kaleido": KV, "err": err,
                    "key": ["opt", n]})
    return out


def domain():
    return {"what": "domain", "codes": dict({o: list(VAL[o]) for o in VAL},
                                            fig=["absent", "empty", "other", "dict"],
                                            export=["absent", "other", "dict"]), "key": ["domain"]}


# ----------------------------------------------------------------- versions
PLOTLY = [[], [4, 14, 0], [4, 99, 9], [5, 0, 0], [5, 9, 0], [5, 13, 9], [5, 13, 0], [5, 13, 99],
          [5, 14, 0], [5, 14, 1], [5, 15, 0], [5, 24, 1], [5, 100, 0], [5, 99, 99], [6, 0, 0],
          [6, 0, 1], [6, 14, 0], [10, 0, 0], [15, 14, 2], [50, 14, 0], [0, 14, 0], [1, 0, 0]]
KALEIDO = [[], [0, 0, 1], [0, 1, 9], [0, 1, 99], [0, 2, 0], [0, 2, 1], [0, 2, 2], [0, 2, 10],
           [0, 2, 99], [0, 3, 0], [0, 10, 0], [0, 20, 1], [1, 0, 0], [1, 2, 1], [2, 2, 1],
           [0, 1, 100]]


def text(v):
    return ".".join(str(x) for x in v)


def versions(part, of):
    import kaleido
    import plotly
    import plotly.io as pio
    out = []
    old = plotly.__version__, kaleido.__version__, pio.show
    pio.show = lambda *a, **k: None
    todo = [(v, w, f) for v in PLOTLY for w in KALEIDO for f in ("absent", "show", "html", "image")]
    try:
        for n, (v, w, f) in enumerate(todo):
            if n % of != part:
                continue
            r = gen.rng_for(SEED, "ver", n)
            fg = dict(fig="absent" if f == "absent" else "dict",
                      export="dict" if f in ("html", "image") else "absent",
                      show="true" if f == "show" else "absent",
                      e=dict(E0, type=f if f in ("html", "image") else "html", format="png"))
            s = dict(S0, cls=r.choice(["HyperPack", "PointGenPack"]), f=fg)
            plotly.__version__, kaleido.__version__ = text(v), text(w)
            if not v:
                sys.modules["plotly"] = None
            if not w:
                sys.modules["kaleido"] = None
            try:
                p, err = apply(s, r, r.choice(["ctor", "assign", "place"]))
                out.append({"what": "opt", "s": s, "plotly": v, "kaleido": w, "err": err,
                            "key": ["ver", n]})
                if f == "absent" and err == "none":
                    p.solve()
                    try:
                        p.create_figure(show=True)
                        e2 = "none"
                    except Exception as e:
                        e2 = type(e).__name__
                    out.append({"what": "fig", "plotly": v, "raised": e2 == "SettingsError",
                                "key": ["fig", n]})
            finally:
                sys.modules["plotly"], sys.modules["kaleido"] = plotly, kaleido
    finally:
        plotly.__version__, kaleido.__version__, pio.show = old
    return out


# ------------------------------------------------------------------ effects
def rotation_on(p):
    p.containers["c"] = {"W": 2, "L": 1}
    p.items = {"i": {"w": 1, "l": 2}}
    p.solve()
    return bool(p.solution["c"])


def evaluations(p, takes):
    """candidates evaluated when each takes that many seconds"""
    p.containers["c"] = {"W": 20, "L": 1}
    p.items = {"i%02d" % j: {"w": 1, "l": 1} for j in range(17)}
    n = 0
    orig = p.evaluate_node

    def ev(sequence):
        nonlocal n
        n += 1
        orig(sequence)
        vclock.now += takes
    p.evaluate_node = ev
    vclock.now = 1000.0
    vclock.active = True
    try:
        p.local_search()
    finally:
        vclock.active = False
        del p.evaluate_node
    return n


def processes(p):
    p.containers["c"] = {"W": 3, "L": 1}
    p.items = {"a": {"w": 1, "l": 1}, "b": {"w": 1, "l": 1}}
    p.few = [tuple(gen.strategy(gen.rng_for("few", j), "perm")) for j in range(12)]
    n = 0
    orig = mpp.BaseProcess.start

    def start(self):
        nonlocal n
        n += 1
        return orig(self)
    mpp.BaseProcess.start = start
    try:
        p.hypersearch()
    finally:
        mpp.BaseProcess.start = orig
    return n


def effects(n):
    r = gen.rng_for(SEED, "eff", n)
    cls = r.choice(["HyperPack", "HyperPack", "PointGenPack"])
    p = None
    seq = []
    mp = r.random() < 0.25
    for _ in range(r.randint(1, 4)):
        s = dict(S0, cls=cls)
        for o in ("rotation", "time", "workers"):
            ok = [c for c in VAL[o] if c in ("absent", "none", "true", "false", "t1", "t2", "t60", "tbig",
                                             "w1", "w2", "w3", "w4")]
            s[o] = r.choice(ok if r.random() < 0.93 else list(VAL[o]))
            if r.random() < 0.3:
                s[o] = "absent"
        if r.random() < 0.2:
            s["f"] = dict(F0, fig="dict", show=r.choice(list(VAL["show"])))
        p2, err = apply(s, r, r.choice(["ctor", "assign", "place"]), p)
        x = {"s": s, "err": err, "rot": True, "evals": -1, "procs": -1}
        if p2 is not None:
            p = p2
        if err == "none":
            x["rot"] = rotation_on(p)
            if cls == "HyperPack":
                x["evals"] = evaluations(p, 1000 if s["time"] == "tbig" else 0.5)
                if mp:
                    x["procs"] = processes(p)
        seq.append(x)
    return [{"what": "eff", "seq": seq, "plotly": PV, "kaleido": KV, "key": ["eff", n]}]


def strategies(n):
    r = gen.rng_for(SEED, "strat", n)
    p = HyperPack(containers=CS, items=IT)
    code = {c: j + 1 for j, c in enumerate(gen.CLASSES)}
    out = []
    for j in range(20):
        before = [code[c] for c in p.potential_points_strategy]
        els = gen.strategy(r)
        x = r.random()
        kind = "tuple"
        if x < 0.15 and els:
            els.append(r.choice(els))
            r.shuffle(els)
        elif x < 0.25:
            els.insert(r.randint(0, len(els)), r.choice(["", "a", "A___", "G", "O", "A'", "AB"]))
        elif x < 0.35:
            els.insert(r.randint(0, len(els)), r.choice([1, None, ("A",), 2.5]))
        elif x < 0.5:
            kind = r.choice(["list", "str", "none", "set", "dict"])
        val = {"tuple": tuple, "list": list, "set": lambda q: set(map(str, q)),
               "str": lambda q: "".join(q), "none": lambda q: None,
               "dict": dict.fromkeys}[kind](els)
        err = "none"
        try:
            p.potential_points_strategy = val
        except Exception as e:
            err = type(e).__name__
        out.append({"what": "strat", "err": err, "before": before,
                    "after": [code.get(c, 0) for c in p.potential_points_strategy],
                    "x": {"kind": kind, "els": [code.get(c, 0) if isinstance(c, str) else -1
                                                for c in els]}, "key": ["strat", n, j]})
    return out


def run(a):
    try:
        kind, n = a[0], a[1]
        if kind == "opt":
            return opt_cases(n, a[2])
        if kind == "ver":
            return versions(n, a[2])
        return effects(n) if kind == "eff" else strategies(n)
    finally:
        if FOLDER is not None and FOLDER[0] == os.getpid():
            shutil.rmtree(FOLDER[1], ignore_errors=True)
            globals()["FOLDER"] = None


def error_case(key, err):
    return {"what": "error", "err": err[:1500], "key": key}
