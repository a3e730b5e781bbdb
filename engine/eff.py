"""Logical queries over the guarded effects of one function of the current tree, and the contract layer of a property."""
import re
import contract
from names import short


def fresh(A):
    """the crate's analyses without the marks a rule put on them"""
    if getattr(A.T, "opaque", None) or A.I.known != A.known0:
        if not hasattr(A, "_fresh"):
            import lib
            A._fresh = lib.A(A.crate, set(A.known0))
        return A._fresh
    return A


class Eff:
    """the effects of a function (helpers unknown to the reviewed tree spliced in) with their exact conditions"""

    def __init__(self, A, name):
        A = fresh(A)
        self.A = A
        self.name = name
        self.body = contract.keys(A).get(name)
        self.ok = self.body is not None
        if not self.ok:
            return
        self.S = contract.summary_of(A, self.body)
        self.s = self.S["_s"]
        self.ok = self.s is not None
        if not self.ok:
            return
        self.B = self.s.B
        self.B.cap = 1500000
        self.meta = {k: tuple(m) for k, m in self.S["meta"].items()}
        self.ev = {t: {v: self.B.load(f) for v, f in d.items()} for t, d in self.S["ev"].items() if not t.startswith("pick ")}
        self.K = contract.domain(self.B, self.meta)

    @property
    def at(self):
        return f"{self.body.file}:{self.body.line}" if self.body else None

    def sites(self, tre, vre=None):
        return [(t, v, f) for t, d in self.ev.items() if re.search(tre, t) for v, f in d.items() if vre is None or re.search(vre, v)]

    def when(self, tre, vre=None):
        r = 0
        for _, _, f in self.sites(tre, vre):
            r = self.B.OR(r, f)
        return r

    def atoms(self, are):
        """atoms matching; those that test memory after a possible write (′) only when none tests it as found"""
        r = [n for n in self.meta if re.search(are, n)]
        return r or [n for n in self.meta if "′" in n and re.search(are, n.replace("′", ""))]

    def lit(self, are):
        """OR of the literals whose atom matches; '!re' for negative ones"""
        neg = are.startswith("!")
        r = 0
        for n in self.atoms(are[1:] if neg else are):
            v = self.B.var(n)
            r = self.B.OR(r, self.B.NOT(v) if neg else v)
        return r

    def forget(self, f, are):
        """f for some value of the atoms matching"""
        S, B = self.S, self.B
        vs = {n for n in self.meta if re.search(are, n)}
        memo = {}

        def go(x):
            if x in (0, 1):
                return x
            if x not in memo:
                v, lo, hi = B.nodes[x]
                lo, hi = go(lo), go(hi)
                memo[x] = B.OR(lo, hi) if B.names[v] in vs else B.ite(B.mk(v, 0, 1), hi, lo)
            return memo[x]
        return go(f)

    def sat(self, f):
        return self.B.AND(f, self.K) != 0

    def implies(self, f, *lits):
        """f ∧ domain ⇒ one of the literals (patterns or formulas)"""
        g = 0
        for l in lits:
            g = self.B.OR(g, self.lit(l) if isinstance(l, str) else l)
        return not self.sat(self.B.AND(f, self.B.NOT(g)))

    def excludes(self, f, *lits):
        return all(not self.sat(self.B.AND(f, self.lit(l) if isinstance(l, str) else l)) for l in lits)

    def witness(self, f):
        return contract.cube(self.B, self.B.AND(f, self.K))

    # orders
    def can_follow(self, a, b):
        """some site of a target matching b can run after one matching a"""
        s = self.s
        A_ = [t for t in s.sites if re.search(a, t)]
        B_ = [t for t in s.sites if re.search(b, t)]
        return any(s.fol[x] & set(s.sites[y]) for x in A_ for y in B_ if x in s.fol)


def fields_of(v):
    """{field: value text} of a struct literal in a recorded value"""
    v = contract.full(v)
    i = v.find("{")
    out, depth, cur = {}, 0, ""
    if i < 0:
        return out
    parts = []
    for ch in v[i + 1:]:
        if ch in "{([":
            depth += 1
        if ch in "})]":
            if depth == 0:
                break
            depth -= 1
        if ch == "," and depth == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += ch
    parts.append(cur)
    for p in parts:
        k, _, x = p.strip().partition(":")
        out[k.strip()] = x.strip()
    return out


def adt_fields(A, name):
    """fields of the struct whose path ends in ::name"""
    for p, a in A.crate.adts.items():
        if p.split("::")[-1] == name:
            return [f[0] for f in a["variants"][0][2]]
    return []


CN = {"runtime": "bladeink", "compiler": "bladeink_compiler", "cli": "rinklecate"}


def contracts(ctx, rid, crate, pats, floor, text=None, skip=(), only=None):
    """the reviewed guarded effects of the functions matching pats (regexes over 'Type::fn' or full path) still hold"""
    A = fresh(ctx.world.A[crate])
    ctx.rule(rid, text or "guarded-effect contracts: each effect of the property's functions (calls, writes, mutations, returned values) happens with the reviewed values under exactly the reviewed condition, in a compatible order")
    specs = contract.load_specs(crate)
    cur = contract.keys(A)
    missing = [k for k in specs if k not in cur]
    n = 0
    hit = set()
    for k in sorted(specs):
        m = [p for p in pats if re.search(p, k)]
        if not m or any(re.search(p, k) for p in skip):
            continue
        hit |= set(m)
        n += 1
        if k not in cur:
            continue
        b = cur[k]
        d = contract.diff_fn(A, specs, k, b, missing)
        if only:
            d = [x for x in d if re.search(only, x[0])]
        if d:
            for key, msg in d[:4]:
                ctx.fail(rid, f"{k}:{key}"[:200], msg[:600], f"{b.file}:{b.line}")
        else:
            ctx.ok(rid, f"{k}: {len(specs[k]['ev'])} effects")
    for p in pats:
        if p not in hit:
            ctx.fail(rid, f"scope:{p}", f"no reviewed function matches {p}")
    ctx.count(f"{rid}:functions", n, floor, rid)


def writers(A, tre, vre=None):
    """reviewed functions (with everything split off them) that have an effect matching"""
    A = fresh(A)
    out = []
    for k, b in sorted(contract.keys(A).items()):
        if not A.I.is_known(b):
            continue
        for t, d in contract.summary_of(A, b)["ev"].items():
            if re.search(tre, t) and (vre is None or any(re.search(vre, v) for v in d)):
                out.append(k)
                break
    return out


def reach(A, names, stop=()):
    """every function that can run inside the named ones (their closures included)"""
    A = fresh(A)
    seen, st = set(), [contract.keys(A)[n].path for n in names if n in contract.keys(A)]
    while st:
        p = st.pop()
        if p in seen:
            continue
        seen.add(p)
        for c, _ in A.cg.edges.get(p, ()):
            b = A.crate.bodies.get(c)
            if b is not None and short(b.path) not in stop:
                st.append(c)
        for q in A.crate.bodies:
            if q.startswith(p + "::{closure") and q not in seen:
                st.append(q)
    return {short(p) for p in seen}


def callers(A, name):
    """reviewed functions that call name, directly or through functions split off them"""
    b = contract.keys(A).get(name)
    out, seen, st = set(), set(), [b.path] if b else []
    while st:
        for c, _ in A.cg.callers.get(st.pop(), ()):
            if c in seen:
                continue
            seen.add(c)
            cb = A.crate.bodies.get(c)
            if cb is None:
                continue
            root = c.split("::{closure")[0]
            rb = A.crate.bodies.get(root, cb)
            if A.I.is_known(rb):
                out.add(short(rb.path))
            else:
                st.append(root)
    return sorted(out)


def _places(x):
    """every place inside an rvalue/operand/terminator in list form"""
    if isinstance(x, list):
        if len(x) >= 1 and isinstance(x[0], int) and all(e == "*" or isinstance(e, list) for e in x[1:]) and len(x) > 1:
            yield x
        for e in x:
            if isinstance(e, list):
                yield from _places(e)


def field_users(A, adt, field):
    """functions (short names, closures under their owner) that mention ADT.field in any place, read or written"""
    A = fresh(A)
    if not hasattr(A, "_fu"):
        A._fu = {}
        for b in A.crate.bodies.values():
            root = short(b.path.split("::{closure")[0])
            for i in b.reach:
                bl = b.blocks[i]
                for st in bl["s"]:
                    for p in _places(st):
                        for e in p[1:]:
                            if isinstance(e, list) and len(e) >= 4 and e[0] == "f":
                                A._fu.setdefault((str(e[3]).split("::")[-1], e[2]), set()).add(root)
                for p in _places(bl["t"]):
                    for e in p[1:]:
                        if isinstance(e, list) and len(e) >= 4 and e[0] == "f":
                            A._fu.setdefault((str(e[3]).split("::")[-1], e[2]), set()).add(root)
    return A._fu.get((adt, field), set())


def variants_of(A, adt):
    """variant names of an enum in their order"""
    for n, a in A.crate.adts.items():
        if n.split("::")[-1] == adt:
            return [v[0] for v in a["variants"]]
    return []


def cycles(A):
    """recursive groups of functions (their closures counted with them), as sorted lists of names"""
    A = fresh(A)
    base = lambda p: p.split("::{closure")[0]
    G = {}
    for p, es in A.cg.edges.items():
        g = G.setdefault(base(p), set())
        for c, _ in es:
            if c in A.crate.bodies:
                # a function making or running its own closure is no recursion
                if base(c) != base(p) or c == p or "{closure" not in c:
                    g.add(base(c))
    idx, low, on, st, out = {}, {}, set(), [], []

    def go(v):
        work = [(v, iter(sorted(G.get(v, ()))))]
        idx[v] = low[v] = len(idx)
        st.append(v)
        on.add(v)
        while work:
            x, it = work[-1]
            for c in it:
                if c not in idx:
                    idx[c] = low[c] = len(idx)
                    st.append(c)
                    on.add(c)
                    work.append((c, iter(sorted(G.get(c, ())))))
                    break
                if c in on:
                    low[x] = min(low[x], idx[c])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[x])
                if low[x] == idx[x]:
                    comp = []
                    while True:
                        y = st.pop()
                        on.discard(y)
                        comp.append(y)
                        if y == x:
                            break
                    if len(comp) > 1 or x in G.get(x, ()):
                        out.append(sorted(comp))
    for v in sorted(G):
        if v not in idx:
            go(v)
    return out
