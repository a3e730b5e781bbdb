#!/usr/bin/env python3
"""specs/panics.json: the undischarged panic sites of the current tree, to be reviewed before committing"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + "/engine")
sys.setrecursionlimit(50000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    import build, lib, eff, contract, psites
    out, key = build.facts()
    w = lib.load(out)
    res = {}
    for cn in ("bladeink", "bladeink_compiler", "rinklecate"):
        A = eff.fresh(w.A[cn])
        d = res[cn] = {}
        for n in sorted(contract.keys(A)):
            r = psites.sites(A, n)
            if r is None:
                d[n] = None
                print("beyond analysis", n)
                continue
            l = [s for s in r[0] if not psites.accepted(s)]
            for s in l:
                if s["kind"].startswith("overflow") and "i32" in s["kind"] and ("@Int" in s["text"] or "try_into<i32>" in s["text"]):
                    print("STORY VALUE", n, s["kind"], s["text"][:150])
            if l:
                d[n] = l
    # fresh BDD dumps, one line a function
    with open(psites.SPEC, "w") as f:
        f.write("{\n" + ",\n".join(json.dumps(c) + ": {\n" + ",\n".join(json.dumps(n) + ": " + json.dumps(v, sort_keys=True, ensure_ascii=False) for n, v in sorted(d.items())) + "\n}" for c, d in res.items()) + "\n}\n")
    for c, d in res.items():
        print(c, sum(len(v or []) for v in d.values()), "sites")


t = threading.Thread(target=main)
t.start(); t.join()
