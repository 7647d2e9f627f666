"""Recording of what the library's logger tells about operations (P28)."""
import contextlib
import logging
import multiprocessing as mp
import os
import shutil
import tempfile

import campaigns
import gen
import lsrec
import rec
from common import SEED
from hyperpack import HyperPack, PointGenPack

SINK = None
LOG = logging.getLogger("hyperpack")


class Grab(logging.Handler):
    def __init__(self):
        super().__init__(1)
        self.rows = []

    def emit(self, record):
        self.rows.append((record.levelname, record.getMessage()))


@contextlib.contextmanager
def listening(h):
    old = logging.root.manager.disable, LOG.level, LOG.propagate
    logging.disable(logging.NOTSET)
    LOG.setLevel(logging.INFO)
    LOG.propagate = False
    LOG.addHandler(h)
    try:
        yield
    finally:
        LOG.removeHandler(h)
        logging.disable(old[0])
        LOG.setLevel(old[1])
        LOG.propagate = old[2]


@contextlib.contextmanager
def seen(op, **more):
    """notes what is logged while the operation runs, if someone listens"""
    if SINK is None:
        yield more
        return
    g, e = Grab(), None
    try:
        with listening(g):
            yield more
    except BaseException as x:
        e = x
        raise
    finally:
        text = str(e) if e is not None else ""
        SINK.append(dict(more, op=op, err=type(e).__name__ if e is not None else "none",
                         package=type(e).__module__.startswith("hyperpack"),
                         lines=[[a, bool(text) and text in b] for a, b in g.rows]))


def run(a):
    """the operations recorded by another recorder, or by one of those below"""
    global SINK
    SINK = []
    kind, n = a[0], a[1]
    try:
        if kind == "new":
            import create
            create.run(a)
        elif kind in ("opt", "ver", "eff"):
            import settings
            settings.run(a)
        elif kind.startswith("hist"):
            import hist
            hist.run(a)
        else:
            {"tell": tell, "fig": figure, "many": workers, "mp": multi}[kind](n)
        return [{"key": list(a), "fail": "none", "seq": SINK[i:i + 50]}
                for i in range(0, len(SINK), 50)]
    finally:
        SINK = None


def instance(r, cls=None, settings=None):
    pb = gen.problem(r, size=r.choice([3, 5, 8]), kmax=6)
    return pb, rec.build(pb, cls=cls or r.choice([HyperPack, PointGenPack]), settings=settings)


def tell(n):
    """logs of solutions"""
    r = gen.rng_for(SEED, "tell", n)
    pb, p = instance(r)
    for _ in range(4):
        x = r.choice(["solve", "solve", "change", "nothing"])
        if x == "solve":
            p.solve()
        elif x == "change":
            p.items[r.choice(list(p.items))]["w"] = r.randint(1, 5)
        g = Grab()
        with seen("log", sol=bool(p.solution)) as more, listening(g):
            out = p.log_solution()
            more["same"] = any(x == ("INFO", out) for x in g.rows)


def figure(n):
    """figures that are made, not asked for, or can't be made"""
    import plotly.io as pio
    r = gen.rng_for(SEED, "fig", n)
    pb, p = instance(r)
    folder = tempfile.mkdtemp(prefix="vlogs")
    keep = pio.write_image, pio.show, pio.write_html
    broken = r.random() < 0.4

    wrong = r.choice([OSError, ValueError, RuntimeError, KeyError, TypeError, PermissionError])

    def write_image(fg, file, *q, **kw):
        if broken:
            raise wrong("no image")

    def write_html(*q, **kw):
        if broken:
            raise wrong("no page")
        return keep[2](*q, **kw)

    pio.write_image, pio.show, pio.write_html = write_image, lambda *q, **kw: None, write_html
    try:
        st = {"rotation": pb["rot"]}
        export = r.choice(["none", "html", "image"])
        show = r.choice([None, False, True])
        st["figure"] = {}
        if export != "none":
            st["figure"]["export"] = {"type": export, "path": folder, "format": "png"}
        if show is not None:
            st["figure"]["show"] = show
        if r.random() < 0.8:
            p.solve()
        p.settings = st
        arg = r.choice([False, False, True])
        if broken:
            shutil.rmtree(folder)
        before = lsrec.sol_text(p.solution, p.obj_val_per_container) if p.solution else ""
        with contextlib.suppress(Exception):
            with seen("figure", sol=bool(p.solution), show=bool(show or arg),
                      export=export != "none", broken=broken):
                p.create_figure(show=True) if arg else p.create_figure()
        after = lsrec.sol_text(p.solution, p.obj_val_per_container) if p.solution else ""
        SINK[-1]["kept"] = before == after
    finally:
        pio.write_image, pio.show, pio.write_html = keep
        shutil.rmtree(folder, ignore_errors=True)


def workers(n):
    """more workers than processors"""
    r = gen.rng_for(SEED, "many", n)
    cpus = os.cpu_count()
    pb, p = instance(r, HyperPack)
    for _ in range(4):
        w = r.choice([1, max(1, cpus - 1), cpus, cpus, cpus + 1, cpus + 1, 3 * cpus + 1, 0, None])
        st = {"workers_num": w, "rotation": True}
        with contextlib.suppress(Exception):
            with seen("workers", n=w or 1, cpus=cpus):
                if r.random() < 0.5:
                    p.settings = st
                else:
                    p.settings.clear()
                    p.settings.update(st)
                    p.validate_settings()


class Shared(logging.Handler):
    """the log of several processes"""
    def __init__(self, path):
        super().__init__(1)
        self.fd = os.open(path, os.O_CREAT | os.O_RDWR | os.O_APPEND)

    def note(self, *x):
        os.write(self.fd, (repr((os.getpid(),) + x) + "\n").encode())

    def emit(self, record):
        self.note("line", record.levelname, record.getMessage())


def multi(n):
    """workers that fail"""
    r = gen.rng_for(SEED, "lmp", n)
    pb = gen.problem(r, size=r.choice([4, 5, 6]), kmax=4)
    for f in ("items", "seq", "ids"):
        pb[f] = pb[f][:4]
    pb["seq"] = list(range(1, len(pb["items"]) + 1))
    N, k = r.randint(2, 6), r.randint(2, 4)
    if n % 8 == 5:
        N, k = r.randint(6, 10), r.randint(5, 8)
    p = rec.build(pb, cls=campaigns.Few, settings={"workers_num": k, "max_time_in_seconds": 600})
    p.few = list(dict.fromkeys(tuple(gen.strategy(r, "perm")) for _ in range(N)))
    how = r.choice(["none", "some", "some", "all", "start"])
    bad = [s for s in p.few if how == "all" or how == "some" and r.random() < 0.4]
    kinds = {s: r.choice(["raise", "raise", "memory", "die"]) for s in bad}
    folder = tempfile.mkdtemp(prefix="vlogs")
    h = Shared(os.path.join(folder, "log"))
    real, me = HyperPack.local_search, os.getpid()

    def search(self, *q, **kw):
        s = tuple(self.potential_points_strategy)
        if os.getpid() != me and s in kinds:
            h.note("failed", kinds[s])
            if kinds[s] == "die":
                os._exit(3)
            raise (MemoryError if kinds[s] == "memory" else RuntimeError)("boom%d" % os.getpid())
        return real(self, *q, **kw)

    first = HyperPack.get_init_solution

    def start(self, *q, **kw):
        if os.getpid() != me and how == "start":
            h.note("failed", "raise")
            raise RuntimeError("boom%d" % os.getpid())
        return first(self, *q, **kw)

    HyperPack.local_search, HyperPack.get_init_solution = search, start
    text, err = "", "none"
    try:
        with listening(h):
            p.hypersearch()
    except Exception as e:
        text, err = str(e), type(e).__name__
    finally:
        HyperPack.local_search, HyperPack.get_init_solution = real, first
        with open(os.path.join(folder, "log")) as f:
            rows = [eval(x) for x in f]
        os.close(h.fd)
        shutil.rmtree(folder, ignore_errors=True)
        for c in mp.active_children():
            c.kill()
    own = [x for x in rows if x[0] == me]
    failed = {x[0]: x[2] for x in rows if x[1] == "failed"}
    SINK.append({
        "op": "mp", "err": err, "package": err == "MultiProcessError",
        "lines": [[x[2], bool(text) and text in x[3]] for x in own if x[1] == "line"],
        "workers": [[failed.get(pid, "none"),
                     any(x[0] == pid and x[1] == "line" and x[2] in ("ERROR", "CRITICAL")
                         for x in rows),
                     any(x[0] == pid and x[1] == "line" and "boom%d" % pid in x[3] for x in rows)]
                    for pid in sorted({x[0] for x in rows} - {me})]})


def error_case(key, err):
    return {"key": key, "fail": err[:1500], "seq": []}
