from __future__ import annotations

import argparse
import os
import sys

from mc import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if a.replay:
        sys.exit(core.replay(a.property, a.replay))
    sys.exit(core.explore(a.property, a.tier, seed, a.jobs, a.v, a.only, evidence=not a.only))


if __name__ == "__main__":
    main()
