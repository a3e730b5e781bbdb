"""explorer: python3 q.py <crate> <fn short name> [inline-all]"""
import sys, threading
sys.setrecursionlimit(50000)
import build, lib
from lib import *
from guards import atxt
from terms import TRANSPARENT, VALUE_ID
def main():
    w = lib.load(build.facts()[0])
    a = w.A[{"rt":"bladeink","comp":"bladeink_compiler","cli":"rinklecate"}[sys.argv[1]]]
    for b in a.by_short.get(sys.argv[2], []):
        want = (lambda x: True) if len(sys.argv) > 3 else None
        ib = a.I.get(b, want, "q")
        print("==", b.path, b.file, b.line, "blocks", ib.n)
        for blk in ib.rpo:
            bl = ib.blocks[blk]
            lines = []
            for i, s in enumerate(bl["s"]):
                if s[0] == "=" and "*" in s[1][1:]:
                    lines.append(f"{s[3]}: STORE {show(a.T.place(ib, s[1], (blk, i)))} := {show(a.T.rvalue(ib, s[2], (blk, i)))}")
            t = bl["t"]
            if t[0] == "call":
                pn, rn = cname(t[1]) if "ind" not in t[1] else ("ind", "ind")
                if not (pn in TRANSPARENT or pn in VALUE_ID or pn in ("Try::branch", "FromResidual::from_residual")):
                    lines.append(f"{t[5]}: CALL {rn}({', '.join(show(x) for x in a.T.args(ib, blk))})")
            if lines:
                print(f"bb{blk} if " + " & ".join(sorted(atxt(x) for x in a.G.block(ib, blk))))
                for l in lines: print("     ", l)
threading.stack_size(512*1024*1024)
t = threading.Thread(target=main); t.start(); t.join()
