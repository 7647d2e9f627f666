"""Recording of the creation of instances (P23)."""

import gen
import hist
import logs
import rec
from common import SEED
from hyperpack import HyperPack, PointGenPack

NOTDICT = [[], 5, "abc", [("i", {"w": 1, "l": 1})], ("x",), 2.5]


# any string is an id
NAMES = ["", " ", "  a", "0", "007", "-1", "None", "w", "L", "é", "a\nb", "x" * 300,
         "strip-pack-container", "\u4e2d", "it's", '"', "{}", "%s", "__", "[0]"]


def number(i):
    """the number of an id, -1 for what was never given"""
    if i in NAMES:
        return 100 + NAMES.index(i)
    return int(i[1:]) + 1 if isinstance(i, str) and i[1:].isdigit() else -1


def some_set(r, w, l, bad):
    """(python value, normalised form)"""
    if r.random() < bad:
        return r.choice(NOTDICT), {"kind": "other", "q": []}
    if r.random() < bad:
        return None, {"kind": "none", "q": []}
    if r.random() < bad:
        return {}, {"kind": "dict", "q": []}
    val, q = {}, []
    odd = list(NAMES)
    r.shuffle(odd)
    for j in range(r.choice([1, 1, 2, 3, 4, 7])):
        i, k = "n%d" % j, {"k": "str", "v": j + 1}
        if r.random() < 0.3:
            i = odd.pop()
            k["v"] = 100 + NAMES.index(i)
        if r.random() < bad:
            i, k = r.choice([3, None, 2.5, ("a",), b"n0"]), {"k": "other", "v": 0}
            if i in val:
                continue
        d, nd = hist.dims(r, w, l, bad)
        val[i] = d
        q.append({"id": k, "dims": nd})
    return val, {"kind": "dict", "q": q}


def entries(s, w, l):
    out = []
    for i, d in s.items():
        ok = number(i) >= 0 and sorted(d) == sorted([w, l]) \
            and all(rec.is_int(v) for v in d.values())
        out.append([number(i),
                    d[w] if ok else -1, min(d[l], 10 ** 6) if ok else -1])
    return out


def run(a):
    kind, n = a
    r = gen.rng_for(SEED, kind, n)
    mode = r.choice(["good", "good", "one", "any"])
    bad = {"good": 0, "one": 0.06, "any": 0.2}[mode]
    strip = r.random() < 0.4
    items, ni = some_set(r, "w", "l", bad)
    conts, nc = some_set(r, "W", "L", bad)
    if strip and not r.random() < bad:
        conts, nc = None, {"kind": "none", "q": []}
    width, nw = None, {"kind": "none", "v": 0}
    if strip:
        width = r.randint(1, 30)
        nw = {"kind": "int", "v": width}
        if r.random() < bad:
            width = r.choice([0, -1, -20, 2.0, 1.5, "3", [2]])
            nw = {"kind": "int", "v": width} if rec.is_int(width) else {"kind": "other", "v": 0}
    st, ns = r.choice([None, {}, {"rotation": False}, {"rotation": True}, {"figure": {}},
                        {"rotation": None}, {"workers_num": None, "rotation": False},
                        {"workers_num": 2, "max_time_in_seconds": 5}, {"unknown": [1]},
                        {"figure": {"show": False}, "rotation": None}]), "ok"
    if r.random() < bad:
        st, ns = r.choice([{"rotation": 3}, [1], "x", {"rotation": "yes"}, [], "", 0, False,
                            {"figure": 3}]), "bad"
    cls = r.choice([HyperPack, PointGenPack])
    text = repr((items, conts, st))
    kw = {"items": items}
    for name, v in (("containers", conts), ("settings", st), ("strip_pack_width", width)):
        if v is not None or r.random() < 0.5:
            kw[name] = v
    case = {"items": ni, "conts": nc, "width": nw, "set": ns, "err": "none", "sol": False,
            "given": True, "usable": True, "default": True, "fail": "none", "key": [kind, n],
            "d": {"items": [], "conts": [], "h": 0, "minh": 0}}
    try:
        with logs.seen("new"):
            if r.random() < 0.3 and width is None:
                p = cls(conts, items, st)
            else:
                p = cls(**kw)
    except Exception as e:
        case["err"] = type(e).__name__
        case["given"] = repr((items, conts, st)) == text
        return case
    cs = entries(p.containers, "W", "L") if not strip else \
        [[1, d["W"], 1] for d in p.containers.values()]
    case["d"] = {"items": entries(p.items, "w", "l"), "conts": cs,
                 "h": p.container_height or 0, "minh": p.container_min_height or 0}
    case["sol"] = bool(getattr(p, "solution", None)) or \
        bool(getattr(p, "obj_val_per_container", None))
    case["default"] = tuple(p.potential_points_strategy) == tuple(gen.CLASSES) and \
        (strip or (p.container_height is None and p.container_min_height is None)) and \
        (p.settings == (st or {}))
    try:
        p.solve()
        case["usable"] = list(p.solution) == list(p.containers) and \
            all(i in p.items for s in p.solution.values() for i in s)
    except Exception as e:
        case["usable"] = False
        case["fail"] = "solve: %r" % e
    case["given"] = repr((items, conts, st)) == text
    return case


def error_case(key, err):
    return {"items": {"kind": "none", "q": []}, "conts": {"kind": "none", "q": []},
            "width": {"kind": "none", "v": 0}, "set": "ok", "err": "ItemsError", "sol": False,
            "given": True, "usable": True, "default": True, "fail": err[:1500], "key": key,
            "d": {"items": [], "conts": [], "h": 0, "minh": 0}}
