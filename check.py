#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: run the check of one property (see MANIFEST.json)."""
import sys, os, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vlib


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "setup":
        import fuzz
        print(vlib.build(), vlib.build_threads(), fuzz.build())
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ck = vlib.Check(pid, tier, seed)
    try:
        ck.build()
        importlib.import_module(pid.lower()).run(ck)
    except BaseException:
        ck.scratch.close()
        raise
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
