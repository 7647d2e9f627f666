"""setup: the toolchain and the specifications are usable"""
import glob
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402


def main():
    import hyperpack
    print("hyperpack from", os.path.dirname(hyperpack.__file__))
    mods = sorted(glob.glob(os.path.join(common.SPEC, "*.tla")))
    p = subprocess.run(["java", "-cp", common.JAR, "tla2sany.SANY"] + mods, cwd=common.SPEC,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    bad = [x for x in p.stdout.split("\n") if "rror" in x]
    if p.returncode or bad:
        print(p.stdout)
        return 1
    print("%d specification modules parsed" % len(mods))
    return 0


if __name__ == "__main__":
    sys.exit(main())
