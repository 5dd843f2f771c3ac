#!/usr/bin/env python3
"""check.py <property> : decides one property of spicelib (tier and seed from VERIF_TIER / VERIF_SEED)."""
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "harness"))
sys.dont_write_bytecode = True
import core  # noqa: E402

GROUPS = {"R": "grp_runner", "S": "grp_server", "W": "grp_sweep", "E": "grp_editor", "D": "grp_raw", "L": "grp_log",
          "N": "grp_number", "A": "grp_schematic"}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ck = core.Check(prop, tier if tier in ("quick", "thorough") else "quick", seed)
    mod = __import__(GROUPS[prop[0]])
    try:
        mod.run(ck)
        return ck.finish()
    except core.MachineryError as e:
        if ck.violations:
            return ck.finish()
        print("MACHINERY ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        if ck.violations:
            return ck.finish()
        return 2


if __name__ == "__main__":
    sys.exit(main())
