"""Recording of log_solution and create_figure (P18, P19)."""
import array
import ast
import base64
import json
import logging
import math
import os
import re
import shutil
import tempfile

import campaigns
import common  # noqa: F401
import gen
import lsrec
import rec
from common import SEED
from hyperpack import HyperPack, PointGenPack
from hyperpack.loggers import hyperLogger


class Grab(logging.Handler):
    def __init__(self):
        super().__init__(1)
        self.rows = []

    def emit(self, record):
        self.rows.append((record.levelno, record.getMessage()))


def situation(kind, n, fig=False):
    r = gen.rng_for(SEED, kind, n)
    if kind.endswith("big"):
        k = r.choice([1001, 1010, 2050])
        strip = r.random() < 0.3
        pb = {"strip": strip, "conts": [{"W": 30, "L": 70 if not strip else 300}],
              "items": [{"w": 1, "l": 1}] * k, "rot": True, "strat": list(gen.CLASSES),
              "seq": list(range(1, k + 1)), "ids": ["i%d" % j for j in range(k)], "cids": ["c"]}
    else:
        pb = gen.problem(r, size=r.choice([3, 5, 8, 10]), kmax=9)
    pb["seq"] = list(range(1, len(pb["items"]) + 1))
    if pb["strip"]:
        pb["conts"][0]["L"] = r.choice([1, 2, pb["conts"][0]["L"], 10 * pb["conts"][0]["W"]])
        if r.random() < 0.4:
            pb["minh"] = r.randint(1, pb["conts"][0]["L"])
    cls = r.choice([campaigns.Few, campaigns.Few, PointGenPack])
    p = rec.build(pb, cls=cls, settings={"max_time_in_seconds": 600} if cls is not PointGenPack
                  else None)
    how = r.choice(["solve", "solve", "solve", "part", "ls", "hs", "none", "cleared", "after"])
    if kind.endswith("big"):
        how = "solve"
    if cls is PointGenPack and how in ("ls", "hs"):
        how = "solve"
    if how == "part":
        ids = [i for i in pb["ids"] if r.random() < 0.6] or pb["ids"][:1]
        p.solve(sequence=rec.form(ids, n))
    elif how == "ls":
        p.local_search()
    elif how == "hs":
        p.few = [tuple(gen.strategy(r, "perm"))]
        p.hypersearch(sorting_by=r.choice([None, ("area", True)]),
                      orientation=r.choice([None, "wide"]))
    elif how != "none":
        p.solve()
    if how == "cleared":
        p.items[pb["ids"][0]]["w"] = r.randint(1, 4)
    if how == "after":
        p.items["extra"] = {"w": 1, "l": 2}
        p.solve()
    if pb["strip"] and r.random() < 0.25:
        # the height can be set below the one of the solution
        p.container_height = r.randint(p.container_min_height or 1, p.container_height + 3)
    if pb["strip"] and r.random() < 0.2:
        p.container_min_height = r.randint(1, p.container_height)
    return r, pb, p


def earlier(r, p, pb, report):
    """the solution has been reported before"""
    if r.random() >= 0.4 or len(pb["ids"]) > 100:
        return
    for _ in range(r.choice([1, 1, 2])):
        report()
        how = r.choice(["none", "minh", "minh", "height", "part", "again", "clear", "other"])
        if how == "minh" and pb["strip"]:
            p.container_min_height = r.randint(1, p.container_height)
        elif how == "height" and pb["strip"]:
            p.container_height = r.randint(p.container_min_height or 1, p.container_height + 3)
        elif how == "part" and p.solution:
            p.solve(sequence=[i for i in pb["ids"] if r.random() < 0.6] or pb["ids"][:1])
        elif how == "again":
            p.solve()
        elif how == "clear":
            p.items[pb["ids"][0]]["w"] = r.randint(1, 4)
        elif how == "other":
            p.items[pb["ids"][-1]] = {"w": r.randint(1, 4), "l": r.randint(1, 4)}
            p.solve()


def describe(p, pb, key):
    ids, cids = list(p.items), list(p.containers)
    sol = []
    if p.solution:
        sol, err = rec.norm_solution({c: p.solution[c] for c in cids}, ids, cids)
        if err:
            raise RuntimeError(err)
    return {"n": len(ids), "conts": [{"W": d["W"], "L": 0 if pb["strip"] else d["L"]}
                                     for d in p.containers.values()],
            "sol": sol, "strip": pb["strip"],
            "minh": (p.container_min_height or 0) if pb["strip"] else 0,
            "err": "none", "key": key}, ids, cids


def snap(p):
    return json.dumps([[(i, dict(d)) for i, d in p.items.items()],
                       [(i, dict(d)) for i, d in p.containers.items()],
                       [(c, list(s.items())) for c, s in p.solution.items()],
                       list(getattr(p, "obj_val_per_container", {}).items()), p.container_height,
                       p.container_min_height, list(p.potential_points_strategy), p.settings])


PCT = r"(-?\d+\.\d{4})%"


def num(x):
    return round(float(x) * 10000)


def parse(text, cids, ids):
    rest = re.search(r"^Remaining items : (.*)$", text, re.M)
    items = [ids.index(i) + 1 if i in ids else 0 for i in ast.literal_eval(rest.group(1))]
    pct = num(re.search(r"^Percent total items stored : " + PCT + "$", text, re.M).group(1))
    conts = []
    cur = None
    for line in text.split("\n"):
        m = re.match(r"Container: (.*) (\d+)x(\d+)$", line)
        if m:
            cur = {"c": cids.index(m.group(1)) + 1 if m.group(1) in cids else 0,
                   "W": min(int(m.group(2)), 10 ** 6), "L": min(int(m.group(3)), 10 ** 6),
                   "util": -1, "mh": -1}
            conts.append(cur)
        m = re.match(r"\s+\[util%\] : " + PCT + "$", line)
        if m:
            cur["util"] = num(m.group(1))
        m = re.match(r"\s+\[max height\] : (\d+)$", line)
        if m:
            cur["mh"] = int(m.group(1))
    return {"pct": pct, "conts": conts, "rest": items}


def log(a):
    kind, n = a
    r, pb, p = situation(kind, n)
    earlier(r, p, pb, p.log_solution)
    c, ids, cids = describe(p, pb, [kind, n])
    g = Grab()
    old = (logging.root.manager.disable, hyperLogger.level, hyperLogger.propagate)
    logging.disable(logging.NOTSET)
    hyperLogger.setLevel(1)
    hyperLogger.propagate = False
    hyperLogger.addHandler(g)
    before = snap(p)
    try:
        out = p.log_solution()
    finally:
        hyperLogger.removeHandler(g)
        logging.disable(old[0])
        hyperLogger.setLevel(old[1])
        hyperLogger.propagate = old[2]
    after = snap(p)
    infos = [x[1] for x in g.rows if x[0] == logging.INFO]
    c.update(what="log", kept=before == after)
    c["log"] = {"none": out is None, "warned": any(x[0] >= logging.WARNING for x in g.rows),
                "returned": out in infos, "pct": 0, "conts": [], "rest": []}
    if out is not None:
        c["log"].update(parse(out, cids, ids))
    return c


# ------------------------------------------------------------------ figures
def span(axis):
    """the largest whole numbers within the range of an axis"""
    q = axis.get("range")
    if not q or len(q) != 2 or not all(isinstance(x, (int, float)) for x in q):
        return None
    return [math.ceil(min(q)), math.floor(max(q))] if max(abs(x) for x in q) < 10 ** 6 else None


def points(v):
    """coordinates of a trace, also as plotly's html encodes them"""
    if isinstance(v, dict) and "bdata" in v:
        v = array.array({"i1": "b", "u1": "B", "i2": "h", "u2": "H", "i4": "i", "u4": "I",
                         "f4": "f", "f8": "d"}[v["dtype"]], base64.b64decode(v["bdata"]))
    return [int(x) if abs(x) < 10 ** 6 and x == int(x) else -7 for x in (v if v is not None else [])]


def shapes(fg, ids, cids):
    out = []
    layout = fg["layout"]
    title = (layout.get("title") or {}).get("text")
    ax = [span(layout.get(q) or {}) for q in ("xaxis", "yaxis")]
    hover = [[[x, y] for x, y in zip(points(t.get("x")), points(t.get("y")))]
             for t in fg["data"] if t.get("hoverinfo") not in ("skip", "none")]
    for s in layout.get("shapes", ()):
        t = (s.get("label") or {}).get("text")
        lab = ids.index(t) + 1 if t in ids else (0 if not t else -1)
        v = [s.get(q) for q in ("x0", "y0", "x1", "y1")]
        if s.get("type") != "rect" or not all(isinstance(x, (int, float)) and x == int(x) and
                                              abs(x) < 10 ** 6 for x in v):
            v = [-1, -1, -1, -1]
        out.append([lab] + [int(x) for x in v])
    return {"rects": out, "title": cids.index(title) + 1 if title in cids else 0,
            "axes": ax if None not in ax else [], "hover": [list(x) for x in sorted(
                {tuple(x) for q in hover for x in q})],
            "traces": len(hover)}


def parse_html(path):
    with open(path, encoding="utf-8") as f:
        text = f.read()
    m = text.rindex("Plotly.newPlot(")
    rest = text[m + len("Plotly.newPlot("):]
    dec = json.JSONDecoder()
    pos = 0
    vals = []
    while len(vals) < 3:
        while rest[pos] in " \n\t\r,":
            pos += 1
        v, pos = dec.raw_decode(rest, pos)
        vals.append(v)
    return {"data": vals[1], "layout": vals[2]}


def fast_figure():
    """plotly's add_shape and add_trace take quadratic time; this Figure keeps
    what they are given and is a real Figure otherwise"""
    import plotly.graph_objects as go

    class Fast(go.Figure):
        def __init__(self, *a, **k):
            object.__setattr__(self, "_kept", [])
            object.__setattr__(self, "_traces", [])
            super().__init__(*a, **k)

        def add_shape(self, arg=None, **kw):
            self._kept.append(dict(arg or {}, **kw))
            return self

        def add_trace(self, t, *a, **k):
            self._traces.append(t.to_plotly_json())
            return self

        def to_plotly_json(self):
            d = super().to_plotly_json()
            d["data"] = list(d["data"]) + self._traces
            d["layout"] = dict(d["layout"], shapes=list(d["layout"].get("shapes", ())) + self._kept)
            return d
    return Fast


def fig(a):
    kind, n = a
    import plotly.graph_objects as go
    import plotly.io as pio
    real = go.Figure
    if kind.endswith("big"):
        go.Figure = fast_figure()
    try:
        return _fig(kind, n, pio)
    finally:
        go.Figure = real


def _fig(kind, n, pio):
    r, pb, p = situation(kind, n)
    folder = tempfile.mkdtemp(prefix="figs")
    shown, images = [], []
    keep = pio.write_image, pio.show
    sc = pio.kaleido.scope
    dims = sc.default_width, sc.default_height, sc.default_scale

    def write_image(fg, file, *q, **kw):
        images.append((os.fspath(file), fg.to_plotly_json(), kw.get("width") or sc.default_width,
                       kw.get("height") or sc.default_height))
        with open(file, "w") as f:
            f.write("image")

    def show(fg, *q, **kw):
        shown.append(fg.to_plotly_json())
    pio.write_image, pio.show = write_image, show
    try:
        mode = r.choice(["html", "html", "image", "image", "none", "empty"])
        if kind.endswith("big"):
            mode = "image"
        shw = r.random() < 0.4
        arg = r.random() < 0.3
        figset = {}
        name = r.choice([None, "x", "My-file_01", "a" * 45])
        fmt = "html"
        size = [0, 0]
        if mode in ("html", "image"):
            ex = {"type": mode, "path": folder}
            if name is not None:
                ex["file_name"] = name
            if mode == "image":
                fmt = r.choice(["pdf", "png", "jpeg", "webp", "svg"])
                ex["format"] = fmt
                size = [1700, 1700]
                if r.random() < 0.4:
                    size[0] = ex["width"] = r.randint(1, 2000)
                if r.random() < 0.4:
                    size[1] = ex["height"] = r.randint(1, 2000)
            figset["export"] = ex
        if shw:
            figset["show"] = True
        elif r.random() < 0.3:
            figset["show"] = False
        st = {k: v for k, v in p.settings.items()}
        if mode != "none" or figset:
            st["figure"] = figset
        sol0 = p.solution
        p.settings = st
        assert p.solution is sol0
        earlier(r, p, pb, lambda: p.create_figure(show=r.random() < 0.5))
        del shown[:], images[:]
        for fn in os.listdir(folder):
            os.unlink(os.path.join(folder, fn))
        c, ids, cids = describe(p, pb, [kind, n])
        before = snap(p)
        p.create_figure(show=True) if arg else p.create_figure()
        after = snap(p)
        written = []
        want = {"%s__%s.%s" % (name or "PlotlyGraph", cid, fmt): j for j, cid in enumerate(cids)}
        byimg = {os.path.abspath(x[0]): x for x in images}
        for fn in sorted(os.listdir(folder)):
            j = want.get(fn)
            if mode == "image":
                x = byimg.get(os.path.join(os.path.abspath(folder), fn))
                lay = x[1] if x else {"data": [], "layout": {}}
                sz = [x[2], x[3]] if x else [-1, -1]
            else:
                lay, sz = parse_html(os.path.join(folder, fn)), [0, 0]
            written.append({"c": (j if j is not None else -1) + 1, "name": j is not None,
                            "fig": shapes(lay, ids, cids), "size": sz})
        c.update(what="fig", kept=before == after,
                 figs={"shown": [{"fig": shapes(x, ids, cids)} for x in shown],
                       "written": written},
                 want={"show": bool(shw or arg), "export": mode in ("html", "image"),
                       "size": size})
        return c
    finally:
        pio.write_image, pio.show = keep
        sc.default_width, sc.default_height, sc.default_scale = dims
        shutil.rmtree(folder, ignore_errors=True)


def run(a):
    return log(a) if a[0].startswith("log") else fig(a)


def error_case(key, err):
    return {"n": 1, "conts": [], "sol": [], "strip": False, "minh": 0, "err": err[:1500],
            "key": key, "what": "error", "kept": True}
