#!/usr/bin/env python3
"""check.py <property id>: runs the check of one property.
Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed.
Anything else: the check itself failed."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import vlib  # noqa: E402


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        vlib.build_core("asan")
        vlib.build_core("asan", "trie")
        vlib.build_core("tsan")
        vlib.build_json("asan")
        vlib.build_json("tsan")
        return 0
    c = vlib.Check(pid)
    mods = ["checks_core"]
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks_json.py")):
        mods.append("checks_json")
    fn = None
    for m in mods:
        fn = fn or getattr(importlib.import_module(m), "check_" + pid, None)
    if fn is None:
        print("no such check:", pid)
        return 2
    try:
        fn(c)
    except vlib.ToolError as e:
        c.finish()
        if c.violations:
            return 1
        print("CHECK-ERROR", pid, e)
        return 2
    except Exception:
        traceback.print_exc()
        c.finish()
        return 1 if c.violations else 2
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
