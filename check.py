#!/usr/bin/env python3
"""Static check of one property: python3 check.py <ID> [--thorough]"""
import importlib
import os
import sys
import threading

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def go():
    pid = sys.argv[1]
    if pid == "--selftest":
        from tsa import common, selftest
        res.append(selftest.run(common))
        return
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    from tsa import report
    mod = importlib.import_module("tsa.checks." + pid.lower())
    res.append(report.main(pid, tier, mod.run))


if __name__ == "__main__":
    res = []
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.exit(res[0] if res else 3)
