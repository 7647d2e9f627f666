"""writes /verif/MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python harness/check.py"
T = {
 "P01": ("TLC: exhaustive small-container model (PackingMC) + trace validation of recorded solutions (SolutionTrace)",
         "geometry of the construction checked exhaustively for tiny containers; real solutions of thousands of generated problems, searches and histories validated by TLC"),
 "P02": ("TLC trace validation of recorded solutions (SolutionTrace)", "recorded solutions of solve, local search, single and multi process hypersearch and change histories"),
 "P03": ("TLC trace validation of recorded solutions and values (SolutionTrace)", "values compared as exact integers with the areas of the recorded solution"),
 "P04": ("TLC: exact conformance of every construction step to the specified procedure (ConstructTrace over Packing)", "the specification is executable: every placement, point and class is compared step by step"),
 "P05": ("TLC: exact conformance of generated points (ConstructTrace over Packing) + exhaustive model PackingMC", "every generated point of every class compared with the specified rules, in order"),
 "P06": ("TLC: equality of outcomes over contexts (DetTrace) against one specification of solve", "same problem solved in many contexts: histories, names, processes, hash seeds"),
 "P07": ("TLC: all histories on a small model (ProblemMC) + validation of recorded operation histories (ProblemTrace)", "every step of random API histories must be a step of the specification"),
 "P08": ("TLC: all strip packing histories on a small model (ProblemMC) + recorded histories (ProblemTrace)", "every step of random API histories must be a step of the specification"),
 "P09": ("TLC: validation of recorded histories with snapshots of instance and caller data (ProblemTrace)", "snapshots before and after every operation"),
 "P10": ("TLC: model of the local search (LocalSearchMC) + validation of recorded searches (LocalSearchTrace)", "every candidate of recorded searches is replayed in the specification"),
 "P11": ("TLC: model of the local search (LocalSearchMC) + validation of recorded searches (LocalSearchTrace)", "every candidate of recorded searches is replayed in the specification"),
 "P12": ("TLC: model (HyperSearchMC) + validation of recorded hypersearches with scripted and real results (HyperTrace)", "recorded single process hypersearches, scripted results and virtual clock"),
 "P13": ("TLC: all interleavings of workers (HyperSearchMC) + recorded multi process runs with enforced schedules (HyperMPTrace)", "schedules are enforced in real processes and the outcome validated"),
 "P14": ("TLC: all interleavings and faults (HyperSearchMC) + recorded multi process runs with injected faults (HyperMPTrace)", "exceptions, exits and kills injected into real workers at the start and in searches; large outputs"),
 "P15": ("TLC: validation of recorded strip packing searches (LocalSearchTrace, HyperTrace, HyperMPTrace)", "heights and completeness of every candidate of recorded searches"),
 "P16": ("TLC: models + validation of recorded searches under a virtual clock (LocalSearchTrace, HyperTrace, HyperMPTrace)", "time passes only by the script, so every stopping decision is reproducible"),
 "P17": ("TLC: small model (ProblemMC) + recorded sorting and orienting in histories (ProblemTrace)", "result compared with the specified order and orientation"),
 "P18": ("TLC: recorded solution logs against the specified report (ReportTrace)", "parsed log compared with the report computed from the solution"),
 "P19": ("TLC: recorded figures and files against the specified depiction (ReportTrace)", "html files are really exported and parsed; image export and browser are stand-ins"),
 "P20": ("TLC: every combination of option codes, versions and histories of settings decided by Settings.tla (SettingsTrace)", "products of all option values; effects observed in solve, searches and started processes"),
 "P21": ("TLC: pool compared with all orders computed by the specification (PoolTrace)", "pools of many instances and hash seeds; division observed in real workers"),
 "P22": ("TLC: generated data against the specified bounds (PoolTrace)", "random parameters and seeds"),
 "P23": ("TLC: creation of instances decided from the definition (CreateTrace over ProblemState)", "random valid and invalid definitions, every combination of malformed parts"),
 "P24": ("TLC: recorded reads through every access against the specified data (ProblemTrace)", "every view of the data compared with the state after random histories"),
 "P25": ("TLC: interrupted operations in recorded histories (ProblemTrace, SolutionTrace)", "KeyboardInterrupt and MemoryError injected at random steps of construction and evaluation"),
 "P26": ("TLC: recorded assignments of valid and malformed strategies in histories (ProblemTrace)", "valid, partial and malformed strategies between all other operations"),
 "P27": ("TLC: model of the engine and its extension points (EngineMC) + validation of recorded calls of user-defined searches (EngineTrace)", "every call of every method of random subclasses, comparisons, limits and exceptions"),
 "P28": ("TLC: messages logged during recorded operations against the specified messages (LogTrace over Logging)", "log of every operation of random histories, creations, settings, figures and failing workers"),
}
checks = [{"property": p, "quick_cmd": "%s %s quick" % (PY, p), "thorough_cmd": "%s %s thorough" % (PY, p),
           "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "model_checking",
           "level_note": n} for p, (t, n) in sorted(T.items())]
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python harness/selftest.py", "checks": checks,
     "not_applicable": [],
     "notes": "TLA+ specifications in spec/, TLC decides every recorded trace. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
