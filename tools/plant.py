"""Makes and verifies a planted bug (development tool, not run by any check).
   plant.py /tmp/plants/X.py [checks...]
X.py defines: prop, edits [(file, old, new)], demo (python text), needs, breaks"""
import json
import os
import runpy
import shutil
import subprocess
import sys

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
PY = "/opt/venv/bin/python"
DEMO = """#!/bin/bash
# run in the repository's folder; exit 0 if the property holds in the demonstrated case
HERE="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec timeout 250 /opt/venv/bin/python "$HERE/demo.py"
"""


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


def main():
    path = sys.argv[1]
    name = os.path.basename(path)[:-3]
    m = runpy.run_path(path)
    d = "/tmp/plantwork-" + name
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    out = os.path.join(SEEDED, name)
    try:
        base = {}
        for f, old, new in m["edits"]:
            p = os.path.join(d, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh(["git", "diff"], d)
        # only lines of the original repository
        bad = [x for x in diff.split("\n") if x.startswith("-") and not x.startswith("---")]
        for f in {e[0] for e in m["edits"]}:
            o = subprocess.run(["git", "show", "2bf2e0b:" + f], cwd="/repo", text=True,
                               stdout=subprocess.PIPE).stdout.split("\n")
            base[f] = set(o)
        allb = set().union(*base.values())
        foreign = [x for x in bad if x[1:] not in allb]
        if foreign:
            print("NOTE lines not in the original:", foreign)
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(DEMO)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(m["demo"].lstrip("\n"))
        json.dump({"property": m["prop"], "needs": m["needs"], "what_it_breaks": m["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        r0, o0 = sh(["bash", out + "/demo.sh"], "/repo")
        r1, o1 = sh(["bash", out + "/demo.sh"], d)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=d)
        rt, ot = sh([PY, "-m", "pytest", "-o", "addopts=", "-q", "-x", "--disable-warnings", "-p",
                     "no:cacheprovider", "--timeout=60"], d, env)
        ok = r0 == 0 and r1 != 0 and rt == 0
        print(name, "OK" if ok else "BAD", "demo clean %s, patched %s, tests %s" % (r0, r1, rt))
        if r0:
            print(o0[-800:])
        if rt:
            print("\n".join(x for x in ot.split("\n") if x.startswith("FAILED"))[:600])
        print("   ", o1.strip().split("\n")[-1][:200])
        if not ok:
            shutil.rmtree(out)
            return
        for p in sys.argv[2:] or [m["prop"]]:
            e = dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_OUT="/tmp/plant-out", PYTHONDONTWRITEBYTECODE="1")
            rc, o = sh([PY, "harness/check.py", p, "quick"], os.path.dirname(SEEDED), e)
            print("    check", p, "rc", rc, [x for x in o.split("\n") if "clause" in x][:1])
    finally:
        shutil.rmtree(d, ignore_errors=True)


main()
