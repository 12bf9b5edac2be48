#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]: decides one property from the current source tree."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from pv import checks  # noqa
from pv.chk import run, PROPS

if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
        args = [a for a in args if a != tier]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    code = 0
    for pid in (sorted(PROPS) if args == ["all"] else args):
        code = max(code, run(pid, tier, seed))
    sys.exit(code)
