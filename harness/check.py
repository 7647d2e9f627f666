#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    prop = sys.argv[1]
    if os.environ.get("PYTHONHASHSEED") != "0":  # reproducible set orders
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import common
    common.quiet()
    common.adopt()
    import checks
    ch = common.Check(prop, tier)
    try:
        checks.ALL[prop](ch)
    except common.Machinery as e:
        print("MACHINERY ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        common.sweep()
    return ch.finish()


if __name__ == "__main__":
    sys.exit(main())
