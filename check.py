#!/usr/bin/env python3
"""Decide one property of /repo: check.py <ID> [quick|thorough].

Exit 0: the property held on everything analysed; 1: VIOLATION; 2: no verdict."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from sa.checklib import Check  # noqa: E402
from sa.registry import REGISTRY  # noqa: E402
from sa.values import AnalysisError  # noqa: E402


def main():
    pid = sys.argv[1]
    if pid == "--selftest":
        from sa.selftest import selftest
        return selftest()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    ck = Check(pid, tier)
    try:
        REGISTRY[pid](ck)
    except AnalysisError as e:
        ck.errors.append(f"{type(e).__name__}: {e}")
    return ck.finish()


if __name__ == "__main__":
    sys.setrecursionlimit(60000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    sys.exit(main())
