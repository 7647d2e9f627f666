"""Shared machinery: TLC runs, verdicts, evidence, parallel recording."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
from multiprocessing import active_children, get_context

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT") or os.path.join(VERIF, "out")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, min(8, os.cpu_count() or 2))

if REPO not in sys.path:
    sys.path.insert(0, REPO)


class VClock:
    """virtual clock: replaces the clocks of module time while active"""
    active = False
    now = 0.0
    real = {}

    def install(self):
        for name in ("time", "monotonic", "perf_counter"):
            f = getattr(time, name)
            self.real[name] = f

            def clock(_f=f):
                # only hyperpack sees the virtual clock
                if self.active and str(sys._getframe(1).f_globals.get(
                        "__name__", "")).startswith("hyperpack"):
                    return self.now
                return _f()
            setattr(time, name, clock)


vclock = VClock()
_real_time = time.time
vclock.install()  # before hyperpack is imported


class Machinery(Exception):
    """the check itself failed (never a verdict)"""


class TlcResult:
    def __init__(self):
        self.ok = False
        self.violated = None  # name of the violated invariant / property
        self.states = 0
        self.transitions = 0
        self.output = ""
        self.last_state = {}
        self.prints = []
        self.wall = 0.0
        self.coverage = {}


def _parse_states(out):
    """last printed state of the counterexample: variable -> text"""
    blocks = re.split(r"\n(?:State \d+: [^\n]*|\d+: <[^\n]*)\n", "\n" + out)
    if len(blocks) < 2:
        m = re.search(r"is violated by the initial state:\n(.*?)(?:\n\n|\Z)", out, re.S)
        if not m:
            return {}
        last = m.group(1)
    else:
        last = blocks[-1]
    st = {}
    cur = None
    for line in last.split("\n"):
        m = re.match(r"(?:/\\ )?(\w+) = (.*)", line)
        if m and (line.startswith("/\\ ") or cur is None):
            cur = m.group(1)
            st[cur] = m.group(2)
        elif cur and line.startswith(" "):
            st[cur] += " " + line.strip()
        elif not line.strip():
            if st:
                break
    return st


def run_tlc(module, cfg, env=None, workers=None, timeout=800, args=(), simulate=None,
            heap="6g", workdir=None):
    """Run TLC on spec/<module>.tla with config text or file name `cfg`."""
    tmp = workdir or tempfile.mkdtemp(prefix="tlc")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), tmp)
        cfgp = os.path.join(tmp, "run.cfg")
        if "\n" in cfg:
            with open(cfgp, "w") as f:
                f.write(cfg)
        else:
            shutil.copy(os.path.join(SPEC, cfg), cfgp)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC",
               "-metadir", os.path.join(tmp, "states"), "-config", "run.cfg",
               "-workers", str(workers or NPROC), "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate"] + simulate
        cmd += list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t0 = _real_time()
        try:
            p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
            out = p.stdout
        except subprocess.TimeoutExpired as ex:
            raise Machinery("TLC timeout on %s after %ss" % (module, timeout)) from ex
        r = TlcResult()
        r.wall = _real_time() - t0
        r.output = out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            r.transitions, r.states = int(m[-1][0]), int(m[-1][1])
        else:
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m:
                r.transitions = r.states = int(m[-1])
        r.prints = re.findall(r"^@@(.*)$", out, re.M)
        if "No error has been found" in out or (
                simulate and p.returncode == 0 and "Error:" not in out):
            r.ok = True
            return r
        m = re.search(r"Error: Invariant (\S+) is violated", out) or re.search(
            r"Error: Action property (\S+) is violated", out) or re.search(
            r"Error: (Temporal propert(?:ies were|y \S+ is|y \S+ was) violated)", out) or re.search(
            r"Error: (Deadlock reached)", out) or re.search(
            r"(The postcondition \S+ (?:is|was) (?:violated|false))", out, re.I)
        if m:
            r.violated = m.group(1)
            r.last_state = _parse_states(out)
            return r
        raise Machinery("TLC failed on %s:\n%s" % (module, out[-3000:]))
    finally:
        if workdir is None:
            shutil.rmtree(tmp, ignore_errors=True)


# ---------------------------------------------------------------- recording
class CaseTimeout(Exception):
    pass


def _alarm(*_):
    raise CaseTimeout("no result within the time allowed for the case")


def guarded(func, arg, limit):
    """run func(arg); returns (result, error text)"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return func(arg), ""
    except Machinery:
        raise
    except BaseException as e:  # the code under test may raise anything
        if isinstance(e, KeyboardInterrupt):
            raise
        return None, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def quiet():
    import logging
    logging.disable(logging.CRITICAL)


def _chunk_worker(a):
    func, chunk, limit = a
    quiet()
    res = []
    for x in chunk:
        r, err = guarded(func, x, limit)
        if err:
            for c in active_children():
                c.kill()
        res.append((x, r, err))
        if err:
            break
    return res


def record(func, specs, limit=20, chunk=None, procs=None):
    """func(spec) for all specs in a pool; list of (spec, result, err).
    A chunk ends at the first error (it decides the verdict anyway)."""
    specs = list(specs)
    procs = procs or NPROC
    chunk = chunk or max(1, min(100, len(specs) // (procs * 4) + 1))
    parts = [(func, specs[i:i + chunk], limit) for i in range(0, len(specs), chunk)]
    out = []
    ex = ProcessPoolExecutor(procs, mp_context=get_context("fork"))
    futs = {ex.submit(_chunk_worker, p): p for p in parts}
    try:
        for f in as_completed(futs):
            try:
                out.extend(f.result())
            except BrokenProcessPool as e:
                out.append((futs[f][1][0], None, "a recording process died: %s" % e))
                break
            if sum(1 for x in out if x[2]) >= 3:
                break
    finally:
        for p in list((ex._processes or {}).values()) if any(x[2] for x in out) else []:
            p.kill()
        ex.shutdown(wait=True, cancel_futures=True)
    out.sort(key=lambda x: json.dumps(x[0], default=str))
    return out


def adopt():
    """orphaned processes become children of this one, so that none is left"""
    import ctypes
    try:
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)  # PR_SET_CHILD_SUBREAPER
    except (OSError, AttributeError):
        pass


def descendants():
    kids = {}
    for p in os.listdir("/proc"):
        if p.isdigit():
            try:
                with open("/proc/%s/stat" % p) as f:
                    kids.setdefault(int(f.read().rpartition(")")[2].split()[1]), []).append(int(p))
            except (OSError, ValueError, IndexError):
                pass
    out, todo = [], [os.getpid()]
    while todo:
        for c in kids.get(todo.pop(), ()):
            out.append(c)
            todo.append(c)
    return out


def sweep():
    """end every process that was started and is still there"""
    for _ in range(5):
        left = descendants()
        for p in left:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        try:
            while os.waitpid(-1, os.WNOHANG)[0]:
                pass
        except OSError:
            pass
        if not left:
            return
        time.sleep(0.05)


# ------------------------------------------------------------------ verdict
class Check:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = _real_time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.notes = []
        self.known = _known(prop)
        self.known_hit = []

    def quick(self):
        return self.tier == "quick"

    def n(self, quick, thorough):
        return quick if self.quick() else thorough

    def tlc(self, module, cfg, **kw):
        r = run_tlc(module, cfg, **kw)
        self.states += r.states
        self.transitions += r.transitions
        return r

    def violation(self, clause, data):
        key = json.dumps([clause, data.get("key")], sort_keys=True, default=str)
        for kf in self.known:
            if kf.get("clause") == clause and kf.get("key") == data.get("key"):
                self.known_hit.append(kf)
                return
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        path = os.path.join(OUT, "replays", "%s-%d.json" % (self.prop, len(self.violations)))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "clause": clause, "seed": SEED, "tier": self.tier,
                       **data}, f, indent=1, default=str)
        self.violations.append((clause, path, key))
        print("violated clause: %s" % clause, flush=True)

    def validate(self, module, cfg, cases, kvar="k", label="", min_cases=1, **kw):
        """Let TLC decide recorded cases; a violated invariant names the clause."""
        if len(cases) < min_cases:
            raise Machinery("no cases to validate for %s %s" % (module, label))
        fd, path = tempfile.mkstemp(prefix="cases", suffix=".json")
        try:
            with os.fdopen(fd, "w") as f:
                json.dump(cases, f)
            r = self.tlc(module, cfg, env={"CASES": path}, **kw)
        finally:
            os.unlink(path)
        self.traces += len(cases)
        if not r.ok:
            k = r.last_state.get(kvar)
            case = None
            if k and k.isdigit() and 1 <= int(k) <= len(cases):
                case = cases[int(k) - 1]
            self.violation("%s/%s" % (module, r.violated), {
                "case": case, "state": r.last_state, "label": label,
                "key": (case or {}).get("key")})
        return r

    def model(self, module, cfg, label="", **kw):
        """model-check the specification alone: failing is a machinery error
        unless the property text itself is at stake"""
        r = self.tlc(module, cfg, **kw)
        if not r.ok:
            raise Machinery("specification %s (%s) violates %s\n%s" % (
                module, label, r.violated, r.output[-2500:]))
        self.extra.setdefault("model_runs", []).append(
            {"module": module, "label": label, "states": r.states, "transitions": r.transitions})
        return r

    def refuted(self, module, cfg, label="", **kw):
        """a variant of the specification that must break the property: shows
        that the property is not vacuous and the mechanism is needed"""
        r = self.tlc(module, cfg, **kw)
        if r.ok:
            raise Machinery("specification %s (%s) was expected to fail" % (module, label))
        self.extra.setdefault("refuted_variants", []).append(
            {"module": module, "label": label, "violates": r.violated})

    def finish(self, level="model_checking", assumptions=()):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples[:5] or ["(see model_runs)"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": level,
              "coverage": cov, "assumptions": list(assumptions),
              "wall_s": round(_real_time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for kf in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, kf["what"]))
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][1]))
            return 1
        print("ok property=%s tier=%s traces=%d states=%d wall=%.1fs" % (
            self.prop, self.tier, self.traces, self.states, _real_time() - self.t0))
        return 0


def _known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f).get("findings", []) if x["property"] == prop]
