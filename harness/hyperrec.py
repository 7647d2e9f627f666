"""Recording of hypersearches, single and multi process (P12-P16)."""
import json
import multiprocessing as mp
import multiprocessing.connection as mpconn
import multiprocessing.sharedctypes as mpsync
import os
import shutil
import signal
import tempfile
import time

import campaigns
import common
import gen
import lsrec
import rec
from common import SEED, vclock
from hyperpack import HyperPack
from hyperpack.exceptions import MultiProcessError

FAR = lsrec.FAR


# ------------------------------------------------------------- the problems
def script_problem(r, strip=None, big=False):
    """unit items; the plain solve places one (empty strategy); the results of
    the strategies are scripted"""
    strip = (r.random() < 0.35) if strip is None else strip
    n = 10 if strip else 20
    W = 10
    if r.random() < 0.06:
        n = r.choice([40, 90, 120])
        W = n if strip else 10
    if big:
        n = 6000
        strip = False
    ids = [("i%03d" % j) + ("x" * 40 if big else "") for j in range(n)]
    pb = {"strip": strip, "conts": [{"W": W, "L": n // 10 if not strip else 100}],
          "items": [{"w": 1, "l": 1}] * n, "rot": True, "strat": [], "seq": list(range(1, n + 1)),
          "ids": ids, "cids": ["c0"]}
    if strip and r.random() < 0.4:
        pb["minh"] = r.randint(1, 3)
    return pb


def close_problem():
    """two long rows; results which differ by less than a billionth"""
    n = 14
    return {"strip": False, "conts": [{"W": 50000, "L": 1}, {"W": 50001, "L": 1}],
            "items": [{"w": 40000, "l": 1}] * 2 + [{"w": 7, "l": 1}] * 6 + [{"w": 10, "l": 1}] * 6,
            "rot": True, "strat": [], "seq": list(range(1, n + 1)),
            "ids": ["i%d" % j for j in range(n)], "cids": ["c0", "c1"], "close": True}


def scripted(p, pb, m, off):
    """set the m-th scripted result on the instance"""
    if pb.get("close"):
        ids = pb["ids"]
        # sevens in the first row, tens in the second
        rows = [ids[:1] + ids[2:2 + m], ids[1:2] + ids[8:8 + off]]
        p.solution, p.obj_val_per_container = {}, {}
        for cid, c, row in zip(rec.cont_ids(pb), pb["conts"], rows):
            x, s = 0, {}
            for i in row:
                w = pb["items"][ids.index(i)]["w"]
                s[i] = [x, 0, w, 1]
                x += w
            p.solution[cid], p.obj_val_per_container[cid] = s, x / c["W"]
        return
    n = len(pb["ids"])
    W = pb["conts"][0]["W"]
    cid = rec.cont_ids(pb)[0]
    if pb["strip"] and m < 0:  # complete, height -m
        h = -m
        # height h: the last item on top
        order = [(j + off) % n for j in range(n)]
        sol = {pb["ids"][o]: [j % W, 0, 1, 1] for j, o in enumerate(order)}
        sol[pb["ids"][order[-1]]] = [W - 1, h - 1, 1, 1]
        val = n / (W * h)
    else:
        sol = {pb["ids"][(j + off) % n]: [j % W, j // W, 1, 1] for j in range(m)}
        val = m / n if not pb["strip"] else (m / W if m else 0)
    p.solution = {cid: sol}
    p.obj_val_per_container = {cid: val}


def cheap(search, p, kw):
    """the real search below a scripted one, of unit items"""
    old = p.__dict__.get("MAX_NEIGHBORS_THROTTLE")
    p.MAX_NEIGHBORS_THROTTLE = 40
    search(**dict(kw, throttle=True))
    del p.MAX_NEIGHBORS_THROTTLE
    if old is not None:
        p.MAX_NEIGHBORS_THROTTLE = old


def script(r, pb, N):
    n = len(pb["ids"])
    if pb.get("close"):
        k = r.randint(3, 9)
        vals = [r.randint(max(0, k - 6), min(6, k)) for _ in range(N)]
        return [(i, k - i - (r.random() < 0.2 and k > i)) for i in vals]
    if pb["strip"]:
        vals = [r.choice([-1, -2, -3, -4, -5, -6, 2, 3, 5, 7, 9]) for _ in range(N)]
        if r.random() < 0.6:
            vals = [v if v != -1 else -2 for v in vals]
    else:
        top = n if r.random() < 0.4 else n - 1
        lo = r.choice([0, 1, max(0, top - 3)])
        vals = [r.randint(lo, top) for _ in range(N)]
    if r.random() < 0.12:  # nothing better than the plain solution
        vals = [r.choice([0, 1, 1]) for _ in vals]
    return [(v, r.randrange(n)) for v in vals]


def pool(r, N, pb=None):
    out = []
    while len(out) < N:
        s = tuple(gen.strategy(r, r.choice(["perm", "first"])))
        if s not in out:
            out.append(s)
    own = tuple(pb["strat"]) if pb else ()
    if own and own not in out and r.random() < 0.3:  # the instance's own is among them
        out[r.randrange(N)] = own
    return out


def make(n, kind):
    r = gen.rng_for(SEED, kind, n)
    real = r.random() < 0.4 and not kind.startswith("mp-big")
    if real:
        w = r.random()
        if w < 0.25:
            pb = gen.problem(r, size=6, strip=False, conts=r.choice([1, 1, 2]), fam="tile")
        elif w < 0.45:
            pb = gen.brink(r, 5)
        else:
            pb = lsrec.ls_problem(r)
        for f in ("items", "seq", "ids"):
            pb[f] = pb[f][:5]
        pb["seq"] = list(range(1, len(pb["items"]) + 1))
        if r.random() < 0.3:
            pb["strat"] = []
    elif r.random() < 0.15 and not kind.startswith("mp-big"):
        pb = close_problem()
    else:
        pb = script_problem(r, big=kind.startswith("mp-big"))
    N = r.choice([1, 2, 3, 4, 5, 6, 7])
    sc = None if real else script(r, pb, N)
    return r, pb, N, sc


# ---------------------------------------------------------- single process
class HSpy(lsrec.LSpy):
    rec_ls = None
    sc = None
    pb = None
    inner = None

    def local_search(self, **kw):
        if self.rec_ls is None:
            return super().local_search(**kw)
        s = tuple(self.potential_points_strategy)
        st = self.few.index(s) + 1 if s in self.few else 0
        h0 = self.container_height or 0
        lscase = None
        if self.sc:
            if not self.pb.get("close"):
                cheap(super().local_search, self, kw)
            if self.pb["strip"]:
                self.container_height = h0
            scripted(self, self.pb, *self.sc[st - 1])
            vclock.now += next(self.ticks) / 4
        else:
            q = rec.build(lsrec_pb(self, self.pb), cls=lsrec.LSpy)
            q.strip_mode = self.pb["strip"]
            if q.strip_mode:
                rec.set_heights(q, h0, self.container_min_height)
            q.solve()
            v0 = lsrec.value_of(q)
            t0 = lsrec.sol_text(q.solution, q.obj_val_per_container)
            self.log = []
            super().local_search(**kw)
            fin = {"val": lsrec.value_of(self), "h": self.container_height or 0,
                   "text": lsrec.sol_text(self.solution, self.obj_val_per_container)}
            if len(self.rec_ls) < 3:
                lscase = lsrec.ls_case(
                    self.pb, self, self.log, list(self.items), v0, t0, self.t_start,
                    self.limit4, self.thr, 2500, fin, h0, self.key + [st])
            self.log = None
        full = sum(len(x) for x in self.solution.values()) == len(self.items)
        self.rec_ls.append({
            "st": st, "val": lsrec.value_of(self),
            "elig": (not self.pb["strip"]) or bool(self.pb.get("minh")) or full,
            "text": lsrec.sol_text(self.solution, self.obj_val_per_container),
            "t": round(vclock.now * 4), "h0": h0, "h1": self.container_height or 0,
            "thr": bool(kw.get("throttle", True)), "ls": lscase})


def lsrec_pb(p, pb):
    q = dict(pb)
    q["ids"] = list(p.items)
    q["items"] = [dict(d) for d in p.items.values()]
    q["strat"] = list(p.potential_points_strategy)
    return q


ARGS = [dict(orientation=None, sorting_by=None), dict(),
        dict(orientation="long", sorting_by=("perimeter", False)),
        dict(orientation="wide", sorting_by=("longest_side_ratio", True))]


def plain(pb, p):
    q = rec.build(dict(lsrec_pb(p, pb), strat=pb["strat"]), cls=lsrec.LSpy)
    q.solve()
    full = sum(len(x) for x in q.solution.values()) == len(q.items)
    return (lsrec.value_of(q), lsrec.sol_text(q.solution, q.obj_val_per_container), full)


def sp(a):
    kind, n = a
    r, pb, N, sc = make(n, kind)
    mode = r.choice(["zero", "slow", "exact", "jump"])
    limit = r.choice([1, 2, 5]) if mode != "zero" else 600
    p = rec.build(pb, cls=HSpy, settings={"max_time_in_seconds": limit})
    p.strip_mode, p.pb, p.sc, p.few = pb["strip"], pb, sc, pool(r, N, pb)
    p.key = [kind, n]
    args = r.choice(ARGS)
    ref = rec.build(pb)  # the order of items the search has to start from
    ref.sort_items(*([args["sorting_by"]] if "sorting_by" in args else []))
    ref.orient_items(*([args["orientation"]] if "orientation" in args else []))
    v0, t0, _ = plain(pb, ref)
    hstart = p.container_height or 0
    vclock.now = 50.0
    if r.random() < 0.2:
        vclock.now = 3.0
        lsrec.earlier(p, r, pb)
        vclock.now = max(50.0, vclock.now)
    start = round(4 * vclock.now)
    p.t_start, p.limit4 = start, 4 * limit
    p.ticks = lsrec.ticks(r, mode)
    p.rec_ls = []
    p.thr = r.random() < 0.8
    vclock.active = True
    try:
        p.hypersearch(throttle=p.thr, **args) if not p.thr or r.random() < 0.5 else \
            p.hypersearch(**args)
    finally:
        vclock.active = False
    evs = p.rec_ls
    p.rec_ls = None
    err = "none"
    if [(i, dict(d)) for i, d in p.items.items()] != [(i, dict(d)) for i, d in ref.items.items()]:
        err = "items are not the sorted and oriented items"
    bs = tuple(p.best_strategy) if p.best_strategy is not None else None
    fst = p.few.index(bs) + 1 if bs in p.few else (0 if bs == tuple(pb["strat"]) else -1)
    finv, fint = lsrec.value_of(p), lsrec.sol_text(p.solution, p.obj_val_per_container)
    rk, opt = lsrec.ranks([v0, finv] + [x["val"] for x in evs], lsrec.optimum(len(pb["conts"])))
    fps = lsrec.Ids()
    full = sum(len(x) for x in p.solution.values()) == len(p.items)
    c = {"N": N, "v0": rk[v0], "fp0": fps.of(t0), "opt": opt, "start": start, "limit": 4 * limit,
         "evs": [{"st": x["st"], "v": rk[x["val"]], "elig": x["elig"], "fp": fps.of(x["text"]),
                  "t": x["t"], "h0": x["h0"], "h1": x["h1"], "thr": x["thr"]} for x in evs], "thr": p.thr,
         "fin": {"v": rk[finv], "fp": fps.of(fint), "st": fst,
                 "elig": full or bool(pb.get("minh")), "h": p.container_height or 0},
         "own": p.few.index(tuple(pb["strat"])) + 1 if tuple(pb["strat"]) in p.few else 0,
         "strip": pb["strip"], "h": hstart, "err": err, "key": [kind, n]}
    return c, [x["ls"] for x in evs if x["ls"]]


def sp_error(key, err):
    return {"N": 1, "v0": 1, "fp0": 1, "opt": FAR, "start": 0, "limit": 4, "evs": [], "own": 0,
            "fin": {"v": 1, "fp": 1, "st": 0, "elig": True, "h": 0}, "strip": False, "h": 0,
            "thr": True,
            "err": err[:1500], "key": key}


# ----------------------------------------------------------- multi process
class Ctl:
    """shared by the recording process and the workers it forks"""


CTL = None
_ls, _ev, _gi = HyperPack.local_search, HyperPack.evaluate_node, HyperPack.get_init_solution


def _write(d):
    fd = os.open(os.path.join(CTL.dir, "%d.log" % os.getpid()),
                 os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    os.write(fd, (json.dumps(d) + "\n").encode())
    os.close(fd)


def _release(rest=False):
    with CTL.cond:
        if CTL.cur:
            CTL.done[CTL.cur - 1] = 1
        if rest:
            for s in getattr(mp.current_process(), "strategies_chunk", None) or []:
                if tuple(s) in CTL.few:
                    CTL.done[CTL.few.index(tuple(s))] = 1
        CTL.cond.notify_all()


def _fault(f):
    if f == "raise":
        raise RuntimeError("injected")
    if f == "memory":
        raise MemoryError("injected")
    if f.startswith("at-"):
        # dies later: with a shared array locked, or while delivering
        CTL.crash = f
        return
    _release(rest=True)
    if f == "kill":
        os.kill(os.getpid(), signal.SIGKILL)
    if f == "exit":
        os._exit(3)
    if f == "sysexit":
        raise SystemExit(1)


def _crash(what):
    _write({"st": 0, "val": -1.0, "elig": False, "text": "", "t": 0, "ord": 0, "ctl": False,
            "fault": what, "h0": 0, "minh": 0,
            "thr": CTL.thr})
    _release(rest=True)
    os.kill(os.getpid(), signal.SIGKILL)


def mp_enter(self):
    """a worker is killed while it holds the lock of a shared array"""
    r = _enter(self)
    if CTL is not None and os.getpid() != CTL.pid and CTL.crash == "at-lock":
        _crash("at-lock")
    return r


def mp_send(self, buf, *a):
    """a worker delivers late, or is killed while it delivers its output"""
    if CTL is not None and os.getpid() != CTL.pid:
        if CTL.gate is not None:
            CTL.gate.wait(0.3)
        if CTL.crash in ("at-send1", "at-send2"):
            CTL.sends += 1
            if CTL.sends == int(CTL.crash[-1]):
                os.write(self.fileno(), bytes(buf)[:len(buf) // 2])
                _crash(CTL.crash)
    return _send(self, buf, *a)


def mp_poll(self, timeout=0.0):
    """between finding nothing and acting on it, the workers deliver and end"""
    race = CTL is not None and os.getpid() == CTL.pid and CTL.gate is not None
    # waiting long finds nothing either: the workers take longer
    r = _poll(self, min(timeout, 0.05) if race and timeout and not CTL.gate.is_set() else timeout)
    if not r and race and not CTL.gate.is_set():
        CTL.gate.set()
        end = time.monotonic() + 2
        for ch in mp.active_children():
            ch.join(max(0, end - time.monotonic()))
    return r


def mp_start(self):
    """starting workers takes time"""
    if CTL is not None and os.getpid() == CTL.pid:
        vclock.now += CTL.slow / 4
    return _start(self)


_start = mp.process.BaseProcess.start
_enter = mpsync.SynchronizedBase.__enter__
_send, _poll = mpconn.Connection._send, mpconn.Connection.poll


def mp_get_init(self):
    if CTL is not None and os.getpid() != CTL.pid and not CTL.in_ls:
        f = None
        with CTL.cond:
            CTL.starts.value += 1
            f = CTL.start_faults.get(CTL.starts.value)
        if f:
            _write({"st": 0, "val": -1.0, "elig": False, "text": "", "t": 0, "ord": 0,
                    "ctl": False, "fault": f, "h0": 0, "minh": 0,
            "thr": CTL.thr})
            _fault(f)
    return _gi(self)


def mp_evaluate(self, sequence):
    seq = list(sequence)
    h = self.container_height or 0
    r = _ev(self, sequence)
    if CTL is not None and os.getpid() != CTL.pid:
        vclock.now += next(CTL.ticks) / 4
        if CTL.lslog is not None:
            CTL.lslog.append(lsrec.event(self, seq, h, CTL.pb["strip"]))
    return r


def worker_plain(self):
    """the plain solution the local search of a worker starts from"""
    q = rec.build(lsrec_pb(self, CTL.pb), cls=HyperPack)
    if CTL.pb["strip"]:
        rec.set_heights(q, self.container_height, self.container_min_height)
    ctl, lg = CTL.pid, CTL.lslog
    CTL.pid, CTL.lslog = os.getpid(), None  # nothing of this is recorded
    q.solve()
    CTL.pid, CTL.lslog = ctl, lg
    return lsrec.value_of(q), lsrec.sol_text(q.solution, q.obj_val_per_container)


def mp_local_search(self, **kw):
    if CTL is None or os.getpid() == CTL.pid:
        return _ls(self, **kw)
    CTL.in_ls = True
    s = tuple(self.potential_points_strategy)
    st = CTL.few.index(s) + 1 if s in CTL.few else -1
    _release()
    CTL.cur = 0
    h0 = self.container_height or 0
    f = CTL.faults.get(st)
    d = {"st": st, "val": -1.0, "elig": False, "text": "", "t": 0, "ord": 0, "ctl": False,
         "fault": f or "none", "h0": h0, "minh": self.container_min_height or 0,
         "thr": bool(kw.get("throttle", True))}
    if f and f.startswith("at-"):
        d["fault"] = "none"
        _fault(f)
    elif f:
        _write(d)
        CTL.cur = st
        _fault(f)
    if CTL.delay.get(st):
        time.sleep(CTL.delay[st])
    if CTL.sc:
        if len(self.items) < 1000 and not CTL.pb.get("close"):
            ticks, CTL.ticks = CTL.ticks, iter(lambda: 0, 1)
            cheap(lambda **k: _ls(self, **k), self, kw)
            CTL.ticks = ticks
            if CTL.pb["strip"]:
                self.container_height = h0
        scripted(self, CTL.pb, *CTL.sc[st - 1])
        vclock.now += next(CTL.ticks) / 4
    elif CTL.lscount < 2 and not f:
        CTL.lscount += 1
        v0, t0 = worker_plain(self)
        CTL.lslog, t_start = [], CTL.t_start
        _ls(self, **kw)
        lg, CTL.lslog = CTL.lslog, None
        fin = {"val": lsrec.value_of(self), "h": self.container_height or 0,
               "text": lsrec.sol_text(self.solution, self.obj_val_per_container)}
        _write({"ls": lsrec.ls_case(CTL.pb, self, lg, list(self.items), v0, t0, t_start,
                                    CTL.limit4, CTL.thr, 2500, fin, h0, CTL.key + [st])})
    else:
        _ls(self, **kw)
    full = sum(len(x) for x in self.solution.values()) == len(self.items)
    d.update(val=lsrec.value_of(self), t=round(vclock.now * 4),
             elig=(not CTL.pb["strip"]) or bool(CTL.pb.get("minh")) or full,
             text=lsrec.sol_text(self.solution, self.obj_val_per_container)
             if len(self.items) < 1000 else repr(lsrec.value_of(self)))
    if CTL.sched:
        before = CTL.sched[: CTL.sched.index(st)]
        with CTL.cond:
            ok = CTL.cond.wait_for(lambda: all(CTL.done[b - 1] for b in before), timeout=1.5)
        d["ord"], d["ctl"] = CTL.sched.index(st) + 1, bool(ok)
        CTL.cur = st
    _write(d)
    CTL.in_ls = False


def _wrap_run():
    try:
        from hyperpack.processes import HyperSearchProcess as H
    except ImportError:
        return None, None
    orig = H.run

    def run(self):
        try:
            return orig(self)
        finally:
            if CTL is not None:
                _release(rest=True)
                if CTL.linger:  # ending takes time, also after delivering
                    time.sleep(0.6)
    H.run = run
    return H, orig


def multi(a):
    """a recorded multi process hypersearch; a = (kind, n)"""
    global CTL
    kind, n = a
    r, pb, N, sc = make(n, kind)
    if kind == "mp-sp":  # comparison with the single process search
        sc = None
        pb = lsrec.ls_problem(r)
        while pb["strip"]:
            pb = lsrec.ls_problem(r)
        for f in ("items", "seq", "ids"):
            pb[f] = pb[f][:5]
        pb["seq"] = list(range(1, len(pb["items"]) + 1))
        N = r.randint(2, 6)
    big = kind.startswith("mp-big")
    workers = r.choice([2, 2, 3, 4, 5])
    if kind in ("mp", "mp-fault") and r.random() < 0.08:
        # many workers
        workers, N = r.randint(7, 13), r.randint(8, 24)
        sc = script(r, pb, N) if sc else None
    mode = r.choice(["zero", "zero", "slow", "exact", "jump"])
    if kind in ("mp-fault", "mp-sp", "mp-big", "mp-race", "mp-bigfault"):
        mode = "zero"
    limit = r.choice([1, 2, 5]) if mode != "zero" else 600
    few = pool(r, N, pb)
    args = r.choice(ARGS)
    p = rec.build(pb, cls=campaigns.Few,
                  settings={"max_time_in_seconds": limit, "workers_num": workers})
    p.few = few
    settings0 = json.dumps(p.settings)
    ref = rec.build(pb)
    ref.sort_items(*([args["sorting_by"]] if "sorting_by" in args else []))
    ref.orient_items(*([args["orientation"]] if "orientation" in args else []))
    v0, t0, _ = plain(pb, ref)
    if big:
        t0 = repr(v0)
    opt0 = v0 >= lsrec.optimum(len(pb["conts"]))
    if r.random() < 0.3:
        p.solve()
    elif r.random() < 0.35 and not big:
        vclock.now = 3.0
        lsrec.earlier(p, r, pb)
    c = Ctl()
    c.pid, c.few, c.pb, c.sc = os.getpid(), few, pb, sc
    c.dir = tempfile.mkdtemp(prefix="mplog")
    c.ticks = lsrec.ticks(r, mode)
    c.cond = mp.Condition()
    c.done = mp.Array("i", N, lock=False)
    c.starts = mp.Value("i", 0, lock=False)
    c.cur, c.in_ls = 0, False
    c.crash, c.sends = None, 0
    c.slow = 0 if mode == "zero" else r.choice([0, 0, 1, 2, limit])
    c.lslog, c.lscount, c.limit4, c.key = None, 0, 4 * limit, [kind, n]
    c.thr = r.random() < 0.7
    c.gate = mp.Event() if kind == "mp-race" else None
    c.linger = kind in ("mp", "mp-fault", "mp-sp") and r.random() < 0.15
    c.faults, c.start_faults, c.delay, c.sched = {}, {}, {}, None
    if kind in ("mp-fault", "mp-race", "mp-bigfault") and not opt0:
        how = r.choice(["some", "some", "all", "starts", "one"])
        F = ["raise", "kill", "exit", "sysexit", "memory", "at-lock", "at-send1", "at-send2"]
        if kind == "mp-race":
            how = r.choice(["some", "none", "none", "one"])
            F = ["raise", "kill", "at-send1"]
        if kind == "mp-bigfault":
            how = r.choice(["one", "some"])
            F = ["at-lock", "at-send1", "at-send2", "kill"]
        if how == "all":
            c.faults = {s: r.choice(F) for s in range(1, N + 1)}
        elif how == "none":
            pass
        elif how == "starts":
            c.start_faults = {j: r.choice(F[:5]) for j in range(1, r.randint(1, workers) + 1)}
        elif how == "one":
            c.faults = {r.randint(1, N): r.choice(F)}
        else:
            c.faults = {s: r.choice(F) for s in range(1, N + 1) if r.random() < 0.4}
    if kind in ("mp", "mp-fault") and r.random() < 0.7:
        c.sched = list(range(1, N + 1))
        r.shuffle(c.sched)
        # parts are searched in order: sort the turns of each worker's part
        size = -(-N // workers)
        parts = [list(range(i, min(i + size, N + 1))) for i in range(1, N + 1, size)]
        its = {}
        for q in parts:
            its.update(dict.fromkeys(q, iter(list(q))))
        c.sched = [next(its[s]) for s in c.sched]
    if kind.startswith("mp-big") and n % 2:
        c.delay = {1: 0.3}
    vclock.now = max(50.0, vclock.now)
    c.t_start = round(4 * vclock.now)
    sol_before = lsrec.sol_text(p.solution, p.obj_val_per_container) if p.solution else "none"
    H, orig = _wrap_run()
    HyperPack.local_search, HyperPack.evaluate_node = mp_local_search, mp_evaluate
    HyperPack.get_init_solution = mp_get_init
    mpsync.SynchronizedBase.__enter__ = mp_enter
    mpconn.Connection._send, mpconn.Connection.poll = mp_send, mp_poll
    mp.process.BaseProcess.start = mp_start
    CTL = c
    raised = False
    err = "none"
    vclock.active = True
    try:
        p.hypersearch(throttle=c.thr, **args) if not c.thr or r.random() < 0.5 else \
            p.hypersearch(**args)
    except MultiProcessError:
        raised = True
    finally:
        left = len(mp.active_children())
        vclock.active = False
        CTL = None
        HyperPack.local_search, HyperPack.evaluate_node = _ls, _ev
        HyperPack.get_init_solution = _gi
        mpsync.SynchronizedBase.__enter__ = _enter
        mpconn.Connection._send, mpconn.Connection.poll = _send, _poll
        mp.process.BaseProcess.start = _start
        if H is not None:
            H.run = orig
        logs = {}
        for f in sorted(os.listdir(c.dir)):
            with open(os.path.join(c.dir, f)) as fh:
                logs[f] = [json.loads(x) for x in fh if x.strip()]
        shutil.rmtree(c.dir, ignore_errors=True)
        lss = [x["ls"] for q in logs.values() for x in q if "ls" in x]
        logs = {f: [x for x in q if "ls" not in x] for f, q in logs.items()}
        logs = {f: q for f, q in logs.items() if q}
    for _ in range(0 if c.linger else 20):
        if not left:
            break
        time.sleep(0.1)
        left = len(mp.active_children())
    for ch in mp.active_children():
        ch.kill()
    if [(i, dict(d)) for i, d in p.items.items()] != [(i, dict(d)) for i, d in ref.items.items()]:
        err = "items are not the sorted and oriented items"
    if json.dumps(p.settings) != settings0:
        err = "settings changed: %r" % (p.settings,)
    if not pb["strip"] and [dict(d) for d in p.containers.values()] != pb["conts"]:
        err = "containers changed"
    spv = None
    if kind == "mp-sp":
        q = rec.build(pb, cls=campaigns.Few, settings={"max_time_in_seconds": 600})
        q.few = few
        q.hypersearch(**args)
        spv = lsrec.value_of(q)
    clean, finv, fint, fst, full = True, v0, "", 0, True
    if raised:
        clean = (not p.solution) or (lsrec.sol_text(p.solution, p.obj_val_per_container)
                                     == sol_before)
    else:
        bs = tuple(p.best_strategy) if p.best_strategy is not None else None
        fst = few.index(bs) + 1 if bs in few else (0 if bs in (None, tuple(pb["strat"])) else -1)
        finv = lsrec.value_of(p)
        fint = lsrec.sol_text(p.solution, p.obj_val_per_container) if not big else repr(finv)
        full = sum(len(x) for x in p.solution.values()) == len(p.items)
    vals = [v0, finv] + [x["val"] for q in logs.values() for x in q] + \
        ([spv] if spv is not None else [])
    rk, opt = lsrec.ranks(vals, lsrec.optimum(len(pb["conts"])))
    fps = lsrec.Ids()
    return {"N": N, "workers": workers, "v0": rk[v0], "fp0": fps.of(t0), "opt": opt,
            "limit": c.t_start + 4 * limit,
            "logs": [[{"st": x["st"], "v": rk[x["val"]], "elig": x["elig"],
                       "fp": fps.of(x["text"]), "t": x["t"], "ord": x["ord"], "ctl": x["ctl"],
                       "fault": x["fault"], "h0": x["h0"], "minh": x["minh"],
                       "thr": x["thr"]} for x in q] for q in logs.values()],
            "fin": {"raised": raised, "v": rk[finv], "fp": fps.of(fint), "st": fst, "left": left,
                    "clean": clean, "elig": full or bool(pb.get("minh")),
                    "h": p.container_height if pb["strip"] else 0,
                    "minh": (p.container_min_height or 0) if pb["strip"] else 0},
            "sp": rk[spv] if spv is not None else -1, "strip": pb["strip"],
            "h": pb["conts"][0]["L"] if pb["strip"] else 0, "minh": pb.get("minh", 0), "err": err,
            "thr": c.thr, "key": [kind, n]}, lss


def mp_error(key, err):
    return {"N": 1, "workers": 1, "v0": 1, "fp0": 1, "opt": FAR, "limit": 1, "logs": [],
            "fin": {"raised": False, "v": 1, "fp": 1, "st": 0, "left": 0, "clean": True,
                    "elig": True, "h": 0, "minh": 0}, "sp": -1, "strip": False, "h": 0, "minh": 0, "err": err[:1500],
            "thr": True, "key": key}


def run(a):
    return sp(a) if a[0].startswith("sp") else multi(a)
