"""Loads the driver's MIR facts and offers CFG utilities.

A Body is one MIR body (function, closure, promoted).  Statements and
terminators are kept in the driver's list form:
  ["=", place, rvalue, line]
  place   = [local, proj...]; proj = "*" | ["f",i,name,adt] | ["d",variant] | ["i",local] | ["c",..] | ["ss",..]
  operand = ["c"|"m", place] | ["k", const]
"""
import json
import os
from functools import cached_property


class Body:
    def __init__(self, d, crate):
        self.crate = crate
        self.path = d["path"]
        self.kind = d["kind"]
        self.pub = d["pub"]
        self.file = d["file"]
        self.line = d["line"]
        self.nargs = d["nargs"]
        self.locals = d["locals"]
        self.upv = d.get("upv", [])
        self.impl_self = d.get("impl_self")
        self.impl_trait = d.get("impl_trait")
        self.trait_item = d.get("trait_item")
        self.blocks = d["blocks"]
        self.n = len(self.blocks)

    def __repr__(self):
        return f"<Body {self.path}>"

    # ---- CFG (normal control flow only; unwind edges are left out) ----
    def succ(self, b):
        return self.succs[b]

    @cached_property
    def succs(self):
        return [term_succ(bl["t"]) for bl in self.blocks]

    @cached_property
    def preds(self):
        p = [[] for _ in range(self.n)]
        for b in range(self.n):
            for s in self.succs[b]:
                p[s].append(b)
        return p

    @cached_property
    def reach(self):
        seen = {0}
        st = [0]
        while st:
            b = st.pop()
            for s in self.succs[b]:
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen

    @cached_property
    def rpo(self):
        seen = set()
        out = []
        st = [(0, iter(self.succs[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succs[s])))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    @cached_property
    def idom(self):
        return compute_idom(self.rpo, self.preds, 0)

    def dominates(self, a, b):
        """block a dominates block b"""
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    @cached_property
    def exits(self):
        return [b for b in self.reach if self.blocks[b]["t"][0] == "ret"]

    def gives_up(self, x):
        """the block only leads out with an error (or never returns)"""
        for _ in range(12):
            bl = self.blocks[x]
            for st in bl["s"]:
                if st[0] == "=" and st[2][0] == "agg" and len(st[2]) > 3 and st[2][3] == "Err":
                    return True
            t = bl["t"]
            if t[0] == "call" and isinstance(t[1], dict) and "from_residual" in t[1].get("p", "") + t[1].get("path", ""):
                return True
            if len(self.succs[x]) == 0:
                return t[0] != "ret"
            if len(self.succs[x]) > 1:
                return False
            x = self.succs[x][0]
        return False

    # ---- acyclic view: every back edge is redirected to where its loop exits ----
    @cached_property
    def fsuccs(self):
        L = self.loops
        exits = {}
        for h, body in L.items():
            # the loop's own test: the first branch after the header, if it leaves the loop
            b = h
            seen = set()
            while len(self.succs[b]) == 1 and b not in seen and self.succs[b][0] in body:
                seen.add(b)
                b = self.succs[b][0]
            exits[h] = [x for x in self.succs[b] if x not in body]
            if not exits[h]:
                # left only from its middle: by its break, when there is just one
                ex = {x for y in body if y in self.reach for x in self.succs[y] if x not in body and not self.gives_up(x)}
                if len(ex) == 1:
                    exits[h] = list(ex)
        out = []
        for b in range(self.n):
            ss = []
            for x in self.succs[b]:
                if b in self.reach and x in L and b in L[x] and self.dominates(x, b):
                    for e in exits[x]:
                        if e not in ss:
                            ss.append(e)
                elif x not in ss:
                    ss.append(x)
            out.append(ss)
        # nested loops: an exit of the inner loop may be the outer header again
        for b in range(self.n):
            if b not in self.reach:
                continue
            ss = []
            for x in out[b]:
                n = 0
                st = [x]
                while st and n < 50:
                    n += 1
                    y = st.pop()
                    if y in L and b in L[y] and y not in self.succs[b] or (y in L and b in L[y] and self.dominates(y, b)):
                        st.extend(exits[y])
                    elif y not in ss:
                        ss.append(y)
            out[b] = ss
        return out

    # ---- postdominators with a virtual exit (node n), over the acyclic view ----
    @cached_property
    def ipdom(self):
        n = self.n
        # reverse graph
        rs = [[] for _ in range(n + 1)]  # successors in reversed graph = preds
        rp = [[] for _ in range(n + 1)]
        for b in self.reach:
            ss = self.fsuccs[b]
            if not ss:
                if self.blocks[b]["t"][0] == "ret" or self.succs[b]:
                    # a return, or the end of an iteration of a loop left only from its middle
                    rs[n].append(b)
                    rp[b].append(n)
                continue
            for s in ss:
                rs[s].append(b)
                rp[b].append(s)
        # rpo from n
        seen = {n}
        out = []
        st = [(n, iter(rs[n]))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(rs[s])))
                    break
            else:
                out.append(b)
                st.pop()
        return compute_idom(out[::-1], rp, n)

    def postdominates(self, a, b):
        n = self.n
        while True:
            if a == b:
                return True
            if b == n or b not in self.ipdom:
                return False
            b = self.ipdom[b]

    @cached_property
    def cdeps(self):
        """block -> set of (branch block, successor) it is control dependent on (direct)."""
        cd = {b: set() for b in self.reach}
        for b in self.reach:
            ss = self.fsuccs[b]
            if len(set(ss)) < 2 or b not in self.ipdom:
                continue
            stop = self.ipdom.get(b)
            for s in set(ss):
                r = s
                while r is not None and r != stop and r != self.n and r in cd:
                    cd[r].add((b, s))
                    nr = self.ipdom.get(r)
                    if nr == r:
                        break
                    r = nr
        # blocks that can only diverge (panic, process::exit) inherit from the way into them
        for b in self.rpo_:
            if b in self.ipdom:
                continue
            for p in self.preds[b]:
                if p in cd and len(set(self.fsuccs[p])) < 2:
                    cd[b] |= cd[p]
        return cd

    @cached_property
    def rpo_(self):
        return [b for b in self.rpo if b in self.reach] if hasattr(self, "rpo") else sorted(self.reach)

    def cdeps_trans(self, b):
        out = set()
        st = [b]
        seen = {b}
        while st:
            x = st.pop()
            for e in self.cdeps.get(x, ()):
                out.add(e)
                if e[0] not in seen:
                    seen.add(e[0])
                    st.append(e[0])
        return out

    # ---- definitions ----
    @cached_property
    def defs(self):
        """local -> list of (block, idx or 'T', kind, payload): whole-local assignments"""
        d = {}
        for b in sorted(self.reach):
            bl = self.blocks[b]
            for i, s in enumerate(bl["s"]):
                if s[0] == "=" and len(s[1]) == 1:
                    d.setdefault(s[1][0], []).append((b, i, "=", s[2]))
            t = bl["t"]
            if t[0] == "call" and len(t[3]) == 1:
                d.setdefault(t[3][0], []).append((b, "T", "call", t))
        return d

    @cached_property
    def partial_defs(self):
        """local -> list of (block, idx, place, rvalue/term): assignments through a projection"""
        d = {}
        for b in sorted(self.reach):
            bl = self.blocks[b]
            for i, s in enumerate(bl["s"]):
                if s[0] == "=" and len(s[1]) > 1:
                    d.setdefault(s[1][0], []).append((b, i, s[1], s[2]))
            t = bl["t"]
            if t[0] == "call" and len(t[3]) > 1:
                d.setdefault(t[3][0], []).append((b, "T", t[3], t))
        return d

    def calls(self):
        for b in sorted(self.reach):
            t = self.blocks[b]["t"]
            if t[0] == "call":
                yield b, t

    def local_name(self, l):
        return self.locals[l][1]

    def local_ty(self, l):
        return self.locals[l][0]

    def loc(self, line=None):
        return f"{self.file}:{line if line is not None else self.line}"

    @cached_property
    def loops(self):
        """natural loops: header -> set of blocks"""
        L = {}
        for b in self.reach:
            for s in self.succs[b]:
                if self.dominates(s, b):
                    body = L.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.preds[x])
        return L


def compute_idom(rpo, preds, root):
    order = {b: i for i, b in enumerate(rpo)}
    idom = {root: root}
    changed = True
    while changed:
        changed = False
        for b in rpo:
            if b == root:
                continue
            new = None
            for p in preds[b]:
                if p in idom and p in order:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while order[a] > order[c]:
                                a = idom[a]
                            while order[c] > order[a]:
                                c = idom[c]
                        new = a
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True
    return idom


def term_succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[5]]
    return []


def callee_path(t):
    """resolved path of a call terminator's callee (declared path if unresolved)"""
    f = t[1]
    return f.get("r") or f.get("p") or "?"


class Crate:
    def __init__(self, fname):
        d = json.load(open(fname))
        self.name = d["crate"]
        self.bodies = {}
        for b in d["bodies"]:
            body = Body(b, self)
            # impls on the same path can collide (generic specialisations); keep all
            p = body.path
            k = 1
            while p in self.bodies:
                k += 1
                p = f"{body.path}#{k}"
            body.path = p
            self.bodies[p] = body
        self.adts = {a["path"]: a for a in d["adts"]}
        self.impls = d["impls"]

    def get(self, path):
        return self.bodies.get(path)

    def fns(self):
        return [b for b in self.bodies.values() if "{promoted#" not in b.path and "::tests::" not in b.path]

    def find(self, suffix):
        """bodies whose path is `suffix` or ends with ::suffix"""
        return [b for b in self.fns() if b.path == suffix or b.path.endswith("::" + suffix)]

    @cached_property
    def by_trait_item(self):
        d = {}
        for b in self.bodies.values():
            if b.trait_item:
                d.setdefault(b.trait_item, []).append(b)
        return d


class World:
    def __init__(self, outdir):
        self.crates = {}
        for f in sorted(os.listdir(outdir)):
            if f.endswith(".json"):
                c = Crate(os.path.join(outdir, f))
                self.crates[c.name] = c

    @property
    def rt(self):
        return self.crates["bladeink"]

    @property
    def comp(self):
        return self.crates["bladeink_compiler"]

    @property
    def cli(self):
        return self.crates["rinklecate"]


# ---------- pretty printing ----------
def pp_place(body, p):
    s = f"_{p[0]}"
    nm = body.local_name(p[0])
    if nm:
        s = nm
    for e in p[1:]:
        if e == "*":
            s = f"(*{s})"
        elif e[0] == "f":
            s += "." + e[2]
        elif e[0] == "d":
            s += f" as {e[1]}"
        elif e[0] == "i":
            s += f"[_{e[1]}]"
        else:
            s += f"[{e}]"
    return s


def pp_op(body, o):
    if o[0] in "cm":
        return pp_place(body, o[1])
    c = o[1]
    if "v" in c:
        return json.dumps(c["v"])
    if "fn" in c:
        return "fn " + (c["fn"].get("r") or c["fn"].get("p"))
    return c.get("named") or c.get("ty") or "const"


def pp_rv(body, r):
    k = r[0]
    if k == "use":
        return pp_op(body, r[1])
    if k == "ref":
        return ("&mut " if r[1] else "&") + pp_place(body, r[2])
    if k == "bin":
        return f"{r[1]}({pp_op(body, r[2])}, {pp_op(body, r[3])})"
    if k == "un":
        return f"{r[1]}({pp_op(body, r[2])})"
    if k == "cast":
        return f"{pp_op(body, r[2])} as {r[3]}"
    if k == "disc":
        return f"disc({pp_place(body, r[1])})"
    if k == "agg":
        return f"{r[1]} {r[2]}::{r[3]}({', '.join(pp_op(body, o) for o in r[5])})"
    return str(r)


def dump(body):
    print(f"fn {body.path}  {body.file}:{body.line} nargs={body.nargs}")
    for i, l in enumerate(body.locals):
        print(f"   _{i} {l[1]}: {l[0]}")
    for b in range(body.n):
        if b not in body.reach:
            continue
        bl = body.blocks[b]
        print(f" bb{b}:")
        for s in bl["s"]:
            if s[0] == "=":
                print(f"    {pp_place(body, s[1])} = {pp_rv(body, s[2])}   // {s[3]}")
            else:
                print("    ", s)
        t = bl["t"]
        if t[0] == "call":
            print(f"    {pp_place(body, t[3])} = CALL {callee_path(t)}({', '.join(pp_op(body, a) for a in t[2])}) -> bb{t[4]}   // {t[5]}")
        elif t[0] == "switch":
            print(f"    SWITCH {pp_op(body, t[1])} {t[2]} else {t[3]}")
        elif t[0] == "assert":
            print(f"    ASSERT {t[3]} ({', '.join(pp_op(body, a) for a in t[4])}) -> bb{t[5]} // {t[6]}")
        else:
            print("    ", t)


if __name__ == "__main__":
    import sys
    w = World(sys.argv[1])
    for c in w.crates.values():
        for b in c.bodies.values():
            if b.path.endswith(sys.argv[2]):
                dump(b)
