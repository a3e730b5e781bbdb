"""Whole-crate call graph: resolved calls, trait objects (all local impls),
closures (an edge from the creating body), generic std callees that call back
into local trait impls (Clone/Eq/Hash/Display/Drop...)."""
from functools import cached_property
from names import short, short_ty

# std entry -> trait methods of local types it may call back into
CALLBACK = {
    "eq": ["PartialEq::eq"], "ne": ["PartialEq::eq"], "contains": ["PartialEq::eq", "Hash::hash"],
    "clone": ["Clone::clone"], "cloned": ["Clone::clone"], "to_vec": ["Clone::clone"], "extend_from_slice": ["Clone::clone"],
    "insert": ["Hash::hash", "PartialEq::eq", "Ord::cmp", "PartialOrd::partial_cmp"],
    "get": ["Hash::hash", "PartialEq::eq", "Ord::cmp"], "remove": ["Hash::hash", "PartialEq::eq"],
    "contains_key": ["Hash::hash", "PartialEq::eq"], "entry": ["Hash::hash", "PartialEq::eq"],
    "get_mut": ["Hash::hash", "PartialEq::eq"], "new_display": ["Display::fmt"], "new_debug": ["Debug::fmt"],
    "to_string": ["Display::fmt"], "sort": ["Ord::cmp"], "cmp": ["Ord::cmp"], "hash": ["Hash::hash"],
    "default": ["Default::default"], "into": ["From::from"], "try_into": ["TryFrom::try_from"], "try_from": ["TryFrom::try_from"],
    "next": ["Iterator::next"], "from_residual": ["From::from"], "extend": ["Hash::hash", "PartialEq::eq"], "collect": ["Hash::hash", "PartialEq::eq"],
    "concat": [], "from": ["From::from"], "index": ["Hash::hash", "PartialEq::eq"],
}


class CallGraph:
    def __init__(self, crate):
        self.crate = crate
        self.impl_index = {}
        for b in crate.bodies.values():
            if b.trait_item:
                self.impl_index.setdefault(short(b.trait_item), []).append(b)

    def impls_of(self, trait_method_short):
        return self.impl_index.get(trait_method_short, [])

    def targets(self, f):
        """list of local bodies a callee dict may reach directly, and a flag 'unknown'"""
        out = []
        if "ind" in f:
            return out
        rk = f.get("rk")
        r = f.get("r")
        if f.get("local") and r in self.crate.bodies:
            out.append(self.crate.bodies[r])
            if rk != "virtual":
                return out
        if rk == "virtual" or rk is None:
            tm = short(f["p"])
            for b in self.impls_of(tm):
                if b not in out:
                    out.append(b)
        return out

    def callbacks(self, f):
        """local trait impls a std callee may call back into (type-based)"""
        out = []
        if f.get("local") or "ind" in f:
            return out
        m = short(f.get("p", "")).split("::")[-1]
        want = CALLBACK.get(m)
        if not want:
            return out
        ga = " ".join(f.get("ga", []))
        if f.get("self"):
            ga += " " + str(f["self"])
        for tm in want:
            for b in self.impls_of(tm):
                st = b.impl_self
                nm = st[1] if st and st[0] == "adt" else None
                if nm and nm in ga:
                    out.append(b)
                elif st and st[0] in ("ref", "prim", "dyn"):
                    # e.g. TryFrom<&ValueType> for bool : keyed by trait args; over-approximate
                    if tm in ("TryFrom::try_from", "From::from"):
                        out.append(b)
        return out

    @cached_property
    def edges(self):
        """body path -> list of (callee path, block)"""
        E = {}
        for b in self.crate.bodies.values():
            es = []
            for blk in b.reach:
                bl = b.blocks[blk]
                for s in bl["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "closure":
                        es.append((s[2][2], blk))
                    if s[0] == "=":
                        for c in consts_in(s[2]):
                            if "fn" in c:
                                for tb in self.targets(c["fn"]):
                                    es.append((tb.path, blk))
                            if "closure" in c:
                                es.append((c["closure"], blk))
                t = bl["t"]
                if t[0] == "call":
                    for tb in self.targets(t[1]):
                        es.append((tb.path, blk))
                    for tb in self.callbacks(t[1]):
                        es.append((tb.path, blk))
                    for cl in t[1].get("cl", []):
                        if cl in self.crate.bodies:
                            es.append((cl, blk))
                    for a in t[2]:
                        if a[0] == "k":
                            c = a[1]
                            if "fn" in c:
                                for tb in self.targets(c["fn"]):
                                    es.append((tb.path, blk))
                            if "closure" in c:
                                es.append((c["closure"], blk))
            E[b.path] = es
        return E

    def reachable(self, roots, stop=()):
        seen = {}
        st = []
        for r in roots:
            p = r.path if hasattr(r, "path") else r
            if p not in seen:
                seen[p] = None
                st.append(p)
        while st:
            p = st.pop()
            if p in stop:
                continue
            for c, _ in self.edges.get(p, ()):
                if c not in seen:
                    seen[c] = p
                    st.append(c)
        return seen

    def path_to(self, seen, p):
        out = []
        while p is not None:
            out.append(short(p))
            p = seen[p]
        return out[::-1]

    @cached_property
    def callers(self):
        C = {}
        for p, es in self.edges.items():
            for c, blk in es:
                C.setdefault(c, []).append((p, blk))
        return C

    def sccs(self, nodes):
        """Tarjan over the given node set; returns list of lists"""
        idx, low, onst, st, out = {}, {}, set(), [], []
        cnt = [0]
        nodes = set(nodes)
        for root in sorted(nodes):
            if root in idx:
                continue
            work = [(root, iter([c for c, _ in self.edges.get(root, ()) if c in nodes]))]
            idx[root] = low[root] = cnt[0]
            cnt[0] += 1
            st.append(root)
            onst.add(root)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        st.append(w)
                        onst.add(w)
                        work.append((w, iter([c for c, _ in self.edges.get(w, ()) if c in nodes])))
                        break
                    elif w in onst:
                        low[v] = min(low[v], idx[w])
                else:
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        comp = []
                        while True:
                            w = st.pop()
                            onst.discard(w)
                            comp.append(w)
                            if w == v:
                                break
                        out.append(comp)
        return out


def consts_in(r):
    def ops(r):
        k = r[0]
        if k in ("use", "repeat"):
            yield r[1]
        elif k == "bin":
            yield r[2]
            yield r[3]
        elif k in ("un", "cast"):
            yield r[2]
        elif k == "agg":
            yield from r[5]
    for o in ops(r):
        if o[0] == "k":
            yield o[1]
