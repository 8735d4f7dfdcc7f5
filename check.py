#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decide one property with the solver."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
import queries


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = queries.get(pid, tier)
    only = os.environ.get("VERIF_ONLY")
    if only:
        prop["queries"] = [q for q in prop["queries"] if only in q.name]
    sys.exit(vf.run_property(pid, prop, tier, seed))


main()
