#!/usr/bin/env python3
"""ctdiff.py [fn-substring]: every difference between the reviewed contracts and the tree in VERIF_REPO"""
import os, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
sys.setrecursionlimit(50000)
import build, lib, contract


def main():
    w = lib.load(build.facts()[0])
    n = 0
    for cn, A in w.A.items():
        sp = contract.load_specs(cn)
        cur = contract.keys(A)
        missing = [k for k in sp if k not in cur]
        for m in missing:
            print("missing", m)
        for k, b in cur.items():
            if k in sp and (len(sys.argv) < 2 or sys.argv[1] in k):
                for key, msg in contract.diff_fn(A, sp, k, b, missing):
                    print(f"{k}: {key}\n      {msg}"[:700])
                    n += 1
    print("differences:", n)


threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main)
t.start()
t.join()
