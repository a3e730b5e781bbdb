#!/usr/bin/env python3
"""Writes the guarded-effect summaries of every function of /repo's current tree to specs/ (run only after reviewing the tree)."""
import json, os, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
sys.setrecursionlimit(50000)
import build, lib, contract


def main():
    w = lib.load(build.facts()[0])
    os.makedirs(os.path.join(V, "specs"), exist_ok=True)
    spl = {}
    for cn, A in w.A.items():
        C = contract.contracts_of(A)
        C.splice = {b.path for b in A.fns() if C.by_size(b)}
        spl[cn] = sorted(C.splice)
        d = contract.all_summaries(A)
        for s in d.values():
            s.pop("_s", None)
        json.dump(d, open(os.path.join(V, "specs", cn + ".json"), "w"), ensure_ascii=False, sort_keys=True, indent=0, separators=(",", ":"))
        print(cn, len(d))
    need, out = set(), {}
    for cn in w.A:
        need |= set(contract.CUT.findall(open(os.path.join(V, "specs", cn + ".json")).read()))
    while need:
        h = need.pop()
        if h in contract.FULL and h not in out and len(contract.FULL[h][1]) < 8000:
            out[h] = contract.FULL[h]
            need |= set(contract.CUT.findall(out[h][1])) - set(out)
    json.dump(out, open(os.path.join(V, "specs", "full.json"), "w"), ensure_ascii=False, sort_keys=True, indent=0)
    json.dump(spl, open(os.path.join(V, "specs", "splice.json"), "w"), sort_keys=True, indent=0)


threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main)
t.start()
t.join()
