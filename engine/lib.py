"""Per-crate analysis bundle."""
import json
import os
from facts import World
from names import short
from terms import Terms, show, strip_sites, walk, cname
from callgraph import CallGraph
from effects import Effects
from guards import Guards
from inline import Inliner

HERE = os.path.dirname(os.path.abspath(__file__))


class A:
    """analysis bundle of one crate"""

    def __init__(self, crate, known):
        self.crate = crate
        self.cg = CallGraph(crate)
        self.T = Terms(crate)
        self.E = Effects(crate, self.cg, self.T)
        self.G = Guards(self.T)
        self.known0 = frozenset(known)
        self.I = Inliner(crate, self.cg, known)
        self.by_short = {}
        for b in crate.fns():
            self.by_short.setdefault(short(b.path), []).append(b)

    def fn(self, name):
        r = self.by_short.get(name, [])
        return r[0] if len(r) == 1 else (r[0] if r else None)

    def fns(self, pred=None):
        return [b for b in self.crate.fns() if pred is None or pred(b)]


def load(out):
    w = World(out)
    kf = json.load(open(os.path.join(HERE, "known_fns.json")))
    w.A = {}
    for n, c in w.crates.items():
        w.A[n] = A(c, set(kf.get(n, [])))
    return w


def load_one(out, name):
    w = World(out)
    kf = json.load(open(os.path.join(HERE, "known_fns.json")))
    return A(w.crates[name], set(kf.get(name, [])))


def gen_known(out):
    w = World(out)
    d = {}
    for n, c in w.crates.items():
        d[n] = sorted({short(b.path) for b in c.fns() if "{closure#" not in b.path})
    json.dump(d, open(os.path.join(HERE, "known_fns.json"), "w"), indent=0)


if __name__ == "__main__":
    import sys
    import build
    if sys.argv[1] == "known":
        gen_known(build.facts()[0])
