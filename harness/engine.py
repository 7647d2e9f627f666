"""Recording of the calls of user-defined local searches (P27)."""
import random

import gen
import lsrec
from common import SEED, vclock
from hyperpack.abstract import AbstractLocalSearch

FAR = 10 ** 6


class Boom(Exception):
    pass


class Base(AbstractLocalSearch):
    """the four methods every subclass has"""
    w = None  # the recording

    def get_init_solution(self):
        return self.w.init()

    def calculate_obj_value(self):
        return self.w.value

    def get_solution(self):
        return self.w.keep()

    def evaluate_node(self, sequence):
        self.w.evaluate(sequence)


class Empty(list):
    """a solution which is false"""

    def __bool__(self):
        return False


class Recording:
    def __init__(self, r, d, f, init):
        self.r, self.d, self.f = r, d, f
        self.pos = lsrec.first_places(init)
        self.start_seq = tuple(init)
        self.evs, self.sols, self.seq, self.value = [], [], None, None
        self.inner, self.boom, self.raised = None, None, False
        self.ticks = iter(lambda: 0, 1)

    def call(self, m, seq=None, v=0, rep=None, sol=0):
        if self.raised:
            raise RuntimeError("called after an exception")
        if m not in ("sol", "extra"):  # the clock is read around these
            vclock.now += next(self.ticks) / 4
        self.evs.append({"m": m, "d": lsrec.sparse(seq, self.pos) if seq else [], "v": v,
                         "t": round(vclock.now * 4), "sol": sol,
                         "rep": rep or {"nn": 0, "best": 0, "cnt": 0, "late": False,
                                        "final": False, "found": False}})
        if len(self.evs) > 4000:
            raise RuntimeError("search does not end")
        if self.boom is not None and len(self.evs) == self.boom[0]:
            self.raised = True
            raise self.boom[1]

    def solution(self):
        # an object of its own each time
        s = self.r.choice([list, tuple, Empty, lambda q: {"seq": list(q)}])(self.seq)
        if not any(s is x for x in self.sols):
            self.sols.append(s)
            return s, len(self.sols)
        s = ["copy", s]
        self.sols.append(s)
        return s, len(self.sols)

    def init(self):
        self.seq = self.start_seq
        self.value = self.f(self.seq)
        s, n = self.solution()
        self.call("init", v=self.value, sol=n)
        return s

    def keep(self):
        s, n = self.solution()
        self.call("sol", sol=n)
        return s

    def evaluate(self, sequence):
        self.seq = tuple(sequence)
        self.value = self.f(self.seq)
        if self.inner is not None and self.r.random() < 0.2:
            self.inner()
        self.call("eval", list(self.seq), self.value)


def subclass(r, d):
    """a class with the methods the definition d asks for"""
    body = {"OPTIMIZATION": d["sense"]}
    if d["initop"]:
        body["init_operations"] = lambda self: self.w.call("initop")
    if d["extra"]:
        body["extra_node_operations"] = lambda self: self.w.call("extra")
    if d["opt"] not in (FAR, -FAR):
        body["get_optimum_objective_val"] = lambda self: d["opt"]
    mx, m = d["sense"] == "MAX", d["m"]
    if d["cmp"] == "margin":
        body["compare_node"] = lambda self, a, b: a >= b + m if mx else a <= b - m
    elif d["cmp"] == "loose":
        body["compare_node"] = lambda self, a, b: a >= b if mx else a <= b
    elif d["cmp"] == "veto":
        body["compare_node"] = lambda self, a, b: a % m != 0 and (a > b if mx else a < b)
    if d["glob"] == "exact":
        body["global_check"] = lambda self, v, o: v == o
    elif d["glob"] == "beyond":
        body["global_check"] = lambda self, v, o: v > o if mx else v < o
    if d["own"]:
        body["get_max_neighbors_num"] = lambda self, throttle, n: d["own"]

    def debug(self, **kw):
        self.w.call("debug", rep={
            "nn": kw["node_num"], "best": kw["best_obj_value"],
            "cnt": kw["processed_neighbors"], "late": bool(kw["out_of_time"]),
            "final": bool(kw["global_optima"]), "found": bool(kw["neighbor_found"])})
    body["debug_local_search"] = debug
    return type("Own", (Base,), body)


def one(r, key, depth=0, E=None, e=None):
    """a recorded search; the class and the instance may have searched before"""
    size = r.choice([0, 1, 2, 3, 4, 5, 6])
    init = r.choice([["k%d" % x for x in range(size)], list(range(10, 10 + size)),
                     [("t", x) for x in range(size)]])
    if r.random() < 0.25:  # elements may be repeated
        init = [r.choice(init) for x in init]
    if e is None:
        sense = r.choice(["MAX", "MIN"])
        top, low = r.choice([2, 4, 9, 40]), r.choice([0, 0, -3, -60])
        d = {"sense": sense, "opt": r.choice([FAR if sense == "MAX" else -FAR] * 2
                                             + [r.randint(low, low + top)]),
             "initop": r.random() < 0.5, "extra": r.random() < 0.6,
             "cmp": r.choice(["default", "default", "margin", "loose", "veto"]),
             "m": r.choice([2, 3]), "glob": "default", "own": r.choice([0, 0, 0, 1, 2, 4, 100])}
        if abs(d["opt"]) != FAR and r.random() < 0.5:
            d["glob"] = r.choice(["exact", "beyond"])
        E = subclass(r, d)
        e = E()
        e.d, e.top, e.low = d, top, low
        if r.random() < 0.4:
            e.MAX_NEIGHBORS_THROTTLE = r.choice([1, 2, 3, 5, 9])
    d, top, low = e.d, e.top, e.low
    salt = r.random()
    table = {}

    def f(seq):
        if seq not in table:
            table[seq] = random.Random(repr((salt, seq))).randint(low, low + top)
        return table[seq]
    outer = getattr(e, "w", None)
    w = e.w = Recording(r, d, f, init)
    throttle = r.random() < 0.6
    mode = r.choice(["zero", "slow", "exact", "jump"])
    if d["cmp"] == "loose":
        mode = "exact"  # may go round until the time is over
    limit = r.choice([1, 2, 5]) if mode != "zero" else 60
    w.ticks = lsrec.ticks(r, mode)
    cases = []
    if depth == 0 and r.random() < 0.15:
        # a search inside the evaluation of another one
        r2 = random.Random(r.random())

        def inner():
            t = vclock.now
            cases.extend(one(r2, key + ["inner"], depth=1))
            vclock.now, vclock.active = t, True
        w.inner = inner
    if r.random() < 0.2:
        w.boom = (r.randint(1, 12), r.choice([Boom("x"), KeyboardInterrupt(),
                                               ValueError("own"), AttributeError("own")]))
    given = r.choice([list, tuple])(init)
    kept = list(given)
    debug = r.choice([True, False, None])
    d2 = dict(d, n=size, debug=debug is not False)
    swaps = size * (size - 1) // 2
    cap = swaps
    if throttle and swaps > e.MAX_NEIGHBORS_THROTTLE:
        cap = e.MAX_NEIGHBORS_THROTTLE
    d2["cap"] = d2.pop("own") or cap
    vclock.now = float(r.choice([0, 100, 5]))
    back = r.choice([0, 0, 1])  # part of the time is over at the start
    start = vclock.now - back
    vclock.active = True
    err, ret = "none", 0
    kw = {} if debug is None else {"debug": debug}
    try:
        res = e.local_search(given, throttle, start, limit, **kw) if r.random() < 0.5 else \
            e.local_search(init_sequence=given, throttle=throttle, start_time=start,
                           max_time_in_seconds=limit, **kw)
        if w.raised:
            err = "the exception of a method was lost"
        ret = next((i + 1 for i, s in enumerate(w.sols) if s is res), 0)
        if not ret:  # an equal copy will do
            ret = next((i + 1 for i, s in enumerate(w.sols) if s == res), 0)
    except BaseException as ex:
        if not (w.raised and ex is w.boom[1]):
            raise
    finally:
        vclock.active = False
    if list(given) != kept:
        err = "the caller's sequence was changed"
    cases.append({"def": d2, "limit": 4 * limit, "start": round(4 * start), "evs": w.evs,
                  "ret": ret, "raised": w.raised, "err": err, "key": key,
                  "lab": [w.pos[x] for x in init]})
    if depth == 0 and r.random() < 0.3:
        cases += one(r, key + ["again"], E=E, e=e)
    e.w = outer
    return cases


def run(a):
    kind, n = a
    r = gen.rng_for(SEED, kind, n)
    return one(r, [kind, n])


def error_case(key, err):
    return {"def": {"n": 1, "sense": "MAX", "opt": FAR, "cap": 1, "debug": False, "initop": False,
                    "extra": False, "cmp": "default", "m": 2, "glob": "default"},
            "limit": 4, "start": 0, "evs": [], "ret": 0, "raised": True, "err": err[:1500],
            "key": key, "lab": [1]}
