#!/usr/bin/env python3
"""check.py ID            run the check of one property (VERIF_SEED, VERIF_TIER from the environment)
check.py replay FILE     run a replay file again and say whether the violation is still there"""
import os, sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sim", "py"))
if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
    os.environ.setdefault("VERIF_TIER", sys.argv[2])
import props

if __name__ == "__main__":
    if len(sys.argv) < 2:
        sys.exit(__doc__)
    if sys.argv[1] == "replay":
        sys.exit(props.replay(sys.argv[2]))
    props.CHECKS[sys.argv[1]][0]()
