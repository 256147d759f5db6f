#!/usr/bin/env python3
"""check.py <property> [--only SCENARIO] [--keep]

Decides a property by running the real code of /repo under monitors. See
DESIGN.md. Environment: VERIF_SEED, VERIF_TIER (quick or thorough).
Exit status: 0 held on everything explored, 1 violated, 2 no answer.
"""
import sys
import os

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "py"))
from driver import main  # noqa: E402

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
