"""P13, P14: multi process hypersearches with each of the platform's ways of
starting processes.

As a program: the hypersearches described on the standard input, one after
the other, with the start method given as argument."""
import json
import logging
import multiprocessing
import os
import signal
import subprocess
import sys
import time


class Bad(tuple):
    """a strategy whose use fails in a worker"""
    how = "raise"

    def __iter__(self):
        if multiprocessing.parent_process() is not None:
            if self.how == "raise":
                raise RuntimeError("this strategy fails")
            os.kill(os.getpid(), signal.SIGKILL)
        return super().__iter__()


class Deadly(Bad):
    how = "kill"


class Lost(Deadly):
    """where processes are given their data, this one is lost on the way"""

    def __reduce__(self):
        return os._exit, (3,)


HOW = {"raise": Bad, "kill": Deadly, "lost": Lost, "": tuple}


def main():
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    logging.disable(logging.CRITICAL)
    from hyperpack import HyperPack, MultiProcessError

    class Few(HyperPack):
        """HyperPack with a small strategy pool"""
        few = None

        def get_strategies(self, *, _exhaustive=True):
            return self.few

    multiprocessing.set_start_method(sys.argv[1])
    for job in json.load(sys.stdin):
        pb = job["pb"]
        its = {i: dict(d) for i, d in zip(pb["ids"], pb["items"])}
        st = {"rotation": pb["rot"], "max_time_in_seconds": 600, "workers_num": job["workers"]}
        if pb["strip"]:
            p = Few(items=its, strip_pack_width=pb["conts"][0]["W"], settings=st)
            p.container_height = pb["conts"][0]["L"]
            if pb.get("minh"):
                p.container_min_height = pb["minh"]
        else:
            p = Few(containers={c: dict(d) for c, d in zip(pb["cids"], pb["conts"])},
                    items=its, settings=st)
        p.potential_points_strategy = tuple(pb["strat"])
        p.few = [HOW[how](s) for how, s in zip(job["how"], job["few"])]
        out = {"raised": False, "err": "none"}
        try:
            p.hypersearch(throttle=job["thr"], **job["args"])
        except MultiProcessError:
            out["raised"] = True
        except Exception as e:
            out["err"] = repr(e)
        for _ in range(50):
            left = multiprocessing.active_children()
            if not left:
                break
            time.sleep(0.1)
        out["left"] = len(left)
        for x in left:
            x.kill()
        bs = getattr(p, "best_strategy", None)
        out.update(sol=p.solution, obj=p.obj_val_per_container if p.solution else {},
                   best=list(bs) if bs is not None else None,
                   items=[[i, dict(d)] for i, d in p.items.items()],
                   conts=[[i, dict(d)] for i, d in p.containers.items()],
                   strat=list(p.potential_points_strategy), settings=dict(p.settings),
                   h=p.container_height or 0, minh=p.container_min_height or 0)
        print(json.dumps(out), flush=True)


def child(method, jobs, limit):
    """the outcomes, or a text if the program does not end well"""
    q = subprocess.Popen([sys.executable, os.path.abspath(__file__), method], text=True,
                         stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    try:
        o, e = q.communicate(json.dumps(jobs), timeout=limit)
    except subprocess.TimeoutExpired:
        o, e = "", "does not return"
    finally:
        try:
            os.killpg(q.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        q.communicate()
    outs = [json.loads(x) for x in o.split("\n") if x.strip()]
    return outs if len(outs) == len(jobs) else "%s: %s" % (method, e[-800:])


def record(n):
    """one problem searched with every start method; the expected results come
    from searches of single strategies on fresh instances"""
    import campaigns
    import gen
    import hyperrec
    import lsrec
    import rec
    from common import SEED, vclock
    r = gen.rng_for(SEED, "spawned", n)
    pb = lsrec.ls_problem(r)
    top = r.choice([3, 5, 7])
    for f in ("items", "seq", "ids"):
        pb[f] = pb[f][:top]
    pb["seq"] = list(range(1, len(pb["items"]) + 1))
    N, workers = r.randint(2, 7), r.choice([2, 2, 3, 4])
    few = hyperrec.pool(r, N)
    args = r.choice(hyperrec.ARGS)
    thr = r.random() < 0.5
    assert not vclock.active
    ref = rec.build(pb)
    ref.sort_items(*([args["sorting_by"]] if "sorting_by" in args else []))
    ref.orient_items(*([args["orientation"]] if "orientation" in args else []))
    v0, t0, _ = hyperrec.plain(pb, ref)
    mx = lsrec.optimum(len(pb["conts"]))
    ref.solve()
    # the strategy is asked for a second point at the latest
    able = v0 < mx and any(len(x) > 1 for x in ref.solution.values())
    fault = r.choice(["none", "some", "some", "all"]) if able else "none"
    bad = [s for s in range(N) if fault == "all" or (fault == "some" and s == 0)]
    alone = []
    for s in few:
        q = rec.build(pb)
        q.items = {i: dict(d) for i, d in ref.items.items()}
        q.potential_points_strategy = tuple(s)
        q.local_search(throttle=thr)
        full = sum(len(x) for x in q.solution.values()) == len(q.items)
        alone.append((lsrec.value_of(q), lsrec.sol_text(q.solution, q.obj_val_per_container), full))
    job = {"pb": {k: pb[k] for k in ("ids", "items", "cids", "conts", "strip", "rot", "strat")
                  }, "workers": workers, "thr": thr, "args": args,
           "few": few, "how": [r.choice(["raise", "raise", "kill", "lost"]) if j in bad else ""
                               for j in range(N)]}
    job["pb"]["minh"] = pb.get("minh", 0)
    cases = []
    for m in ("spawn", "forkserver", "fork"):
        out = child(m, [job], 120)
        key = [m, n]
        if isinstance(out, str):
            cases.append(error(key, out))
            continue
        out = out[0]
        err = out["err"]
        if out["items"] != [[i, dict(d)] for i, d in ref.items.items()]:
            err = "items are not the sorted and oriented items"
        if not pb["strip"] and out["conts"] != [[i, dict(d)] for i, d in zip(pb["cids"], pb["conts"])]:
            err = "containers changed"
        if out["strat"] != list(pb["strat"]):
            err = "strategy changed"
        if out["settings"] != {"rotation": pb["rot"], "max_time_in_seconds": 600,
                               "workers_num": workers}:
            err = "settings changed"
        bs, st, v, text, full = out["best"], 0, v0, "", True
        if not out["raised"] and err == "none":
            if out["best"] not in (None, list(pb["strat"])):
                st = next((j + 1 for j, s in enumerate(few) if list(s) == bs), -1)
            q = rec.build(pb, cls=campaigns.Few)
            q.items = {i: dict(d) for i, d in ref.items.items()}
            q.solution, q.obj_val_per_container = out["sol"], out["obj"]
            v, text = lsrec.value_of(q), lsrec.sol_text(out["sol"], out["obj"])
            full = sum(len(x) for x in out["sol"].values()) == len(q.items)
        rk, opt = lsrec.ranks([v0, v] + [x[0] for x in alone], mx)
        fps = lsrec.Ids()
        cases.append({
            "strip": pb["strip"], "workers": workers, "fault": fault, "opt": opt, "v0": rk[v0], "fp0": fps.of(t0),
            "bad": [j + 1 for j in bad],
            "alone": [{"v": rk[a], "fp": fps.of(b), "full": c} for a, b, c in alone],
            "h": pb["conts"][0]["L"] if pb["strip"] else 0, "minh": pb.get("minh", 0) or 0,
            "fin": {"raised": out["raised"], "v": rk[v], "fp": fps.of(text), "st": st, "full": full,
                    "left": out["left"], "clean": not out["sol"] or not out["raised"],
                    "h": out["h"], "minh": out["minh"]},
            "err": err, "key": key})
    return cases


def error(key, err):
    return {"strip": False, "workers": 2, "fault": "none", "opt": 99, "v0": 1, "fp0": 1, "bad": [],
            "alone": [{"v": 1, "fp": 1, "full": True}], "h": 0, "minh": 0,
            "fin": {"raised": False, "v": 1, "fp": 1, "st": 0, "full": True, "left": 0,
                    "clean": True, "h": 0, "minh": 0}, "err": err[:1500], "key": key}


if __name__ == "__main__":
    main()
