#!/usr/bin/env python3
"""dbg.py Pxx: print leaf differences in full"""
import os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
os.environ["VERIF_DEBUG"] = "1"
threading.stack_size(512 * 1024 * 1024)
sys.setrecursionlimit(40000)


def main():
    from check import evaluate
    from sa import driver as D
    from sa import terms as T
    orig = D.DCEquiv.note

    def note(self, path, a, b):
        orig(self, path, a, b)
        _, x, y = self.diff
        print("=== path", " & ".join(("" if v else "!") + T.show(c, 9)[:300] for c, v in path))
        if x.op == y.op == "list":
            print("   lists", len(x.args), len(y.args))
            for i in range(max(len(x.args), len(y.args))):
                p = x.args[i] if i < len(x.args) else None
                q = y.args[i] if i < len(y.args) else None
                if p is None or q is None or not D.leaf_equal(D.mk("list", p), D.mk("list", q)):
                    print("   [%d] found    %s" % (i, D._sh(p, 3000)))
                    print("   [%d] required %s" % (i, D._sh(q, 3000)))
        else:
            for p, q in sorted(D.diffs(x, y), key=lambda pq: pq[0].size)[:4]:
                print("   found   ", D._sh(p, 1500))
                print("   required", D._sh(q, 1500))
    D.DCEquiv.note = note
    for pid in sys.argv[1].split(","):
        evaluate(pid)


t = threading.Thread(target=main)
t.start()
t.join()
