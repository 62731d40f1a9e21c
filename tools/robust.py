#!/usr/bin/env python3
"""robust.py Pxx [seconds]: rewrites must be quiet; lists mutations that are not reported."""
import os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
threading.stack_size(512 * 1024 * 1024)
sys.setrecursionlimit(40000)


def main():
    from check import evaluate
    from sa import selftest
    for pid in sys.argv[1].split(","):
        cx = evaluate(pid)
        r = selftest.run(pid, cx, 1, float(sys.argv[2]) if len(sys.argv) > 2 else 60, verbose=True)
        print(pid, [(x["rewrite"], x["outcome"]) for x in r["selftest_rewrites"] if x["outcome"] != "quiet" or x["undecided"]])
        print(pid, r["selftest_mutants"])
        skip = ("logger", "self.log", "super()") if "ALL" in os.environ else ("reporter", "logger", "self.log", "super()")
        n = 0
        for s in r["selftest_not_reported"]:
            if any(x in s for x in skip):
                continue
            n += 1
            if n <= int(os.environ.get("N", "40")):
                print("   survived:", s.replace("reagent.", "", 1)[:150])
        print("   (%d listed of %d)" % (min(n, int(os.environ.get("N", "40"))), n))


t = threading.Thread(target=main)
t.start()
t.join()
