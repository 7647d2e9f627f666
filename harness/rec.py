"""Recording of the implementation through its public interface."""
import common  # noqa: F401  (puts /repo first on sys.path)

from hyperpack import HyperPack, PointGenPack  # noqa: E402


def items_of(pb):
    return {pb["ids"][j]: dict(d) for j, d in enumerate(pb["items"])}


def conts_of(pb):
    return {pb["cids"][j]: dict(c) for j, c in enumerate(pb["conts"])}


def build(pb, cls=HyperPack, settings=None):
    st = {"rotation": pb["rot"]}
    if settings:
        st.update(settings)
    its = items_of(pb)
    if pb["strip"]:
        p = cls(items=its, strip_pack_width=pb["conts"][0]["W"], settings=st)
        if pb["conts"][0]["L"] != p.container_height:
            p.container_height = pb["conts"][0]["L"]
        if pb.get("minh"):
            p.container_min_height = pb["minh"]
    else:
        p = cls(containers=conts_of(pb), items=its, settings=st)
    p.potential_points_strategy = tuple(pb["strat"])
    return p


def set_heights(q, height, minimum):
    """heights of a strip packing instance"""
    q.reset_container_height()
    if height:
        q.container_height = height
    if minimum is not None:
        q.container_min_height = minimum


def form(ids, j):
    """a sequence of ids in one of the forms the callers use"""
    ids = list(ids)
    if j % 11 == 3:  # ids given again count once
        ids += ids[:1 + j % 5]
    if j % 11 == 7:
        ids = [i for i in ids for _ in range(1 + len(i) % 2)]
    return tuple(ids) if j % 2 else ids


def cont_ids(pb):
    return ["strip-pack-container"] if pb["strip"] else pb["cids"]


def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def norm_solution(sol, ids, cids):
    """containers in problem order -> list of [i, x, y, w, l]; error text"""
    if list(sol) != list(cids):
        return None, "containers of the solution %r are not %r" % (list(sol), list(cids))
    num = {x: j + 1 for j, x in enumerate(ids)}
    out = []
    for c in cids:
        row = []
        for i, v in sol[c].items():
            if i not in num:
                return None, "unknown item id %r" % (i,)
            v = list(v)
            if len(v) != 4 or not all(is_int(x) for x in v):
                return None, "malformed placement %r of %r" % (v, i)
            if max(abs(x) for x in v) > 10 ** 6:
                return None, "placement out of range %r" % (v,)
            row.append([num[i]] + v)
        out.append(row)
    return out, ""


def norm_util(p, pb, sol, cids, objs=None):
    """reported value * (width * length) * 1000 as an integer"""
    objs = p.obj_val_per_container if objs is None else objs
    if list(objs) != list(cids):
        return None, "containers of obj_val_per_container %r" % (list(objs),)
    out = []
    for j, c in enumerate(cids):
        W, L = pb["conts"][j]["W"], pb["conts"][j]["L"]
        if pb["strip"]:
            L = max([v[2] + v[4] for v in sol[j]] or [1])
        u = objs[c]
        if isinstance(u, bool) or not isinstance(u, (int, float)) or not (-9 < u < 9):
            return None, "value %r" % (u,)
        v, full = round(u * W * L * 1000), 1000 * W * L
        # the maximum is 1 exactly: a value next to it is not the maximum
        out.append(full - 1 if v == full and u < 1 else full + 1 if v == full and u > 1 else v)
    return out, ""


def snapshot(p, pb):
    """solution and values of the instance in normalised form"""
    cids = cont_ids(pb)
    sol, err = norm_solution(p.solution, pb["ids"], cids)
    if err:
        return None, None, err
    util, err = norm_util(p, pb, sol, cids)
    if err:
        return None, None, err
    return sol, util, ""


def pbrec(pb):
    return {"conts": pb["conts"], "items": pb["items"], "rot": pb["rot"],
            "strat": pb["strat"], "strip": pb["strip"]}


def total_scaled(p, pb, sol):
    return 0


def case(pb, sol, util, err="", **kw):
    c = {"pb": pbrec(pb), "seq": pb["seq"], "sol": sol if sol is not None else [],
         "util": util if util is not None else [], "err": err or "none"}
    c.update(kw)
    return c
