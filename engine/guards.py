"""Conditions under which a block executes, as normalised atoms.

atom = (pol, kind, ...) with kind one of
  ("true", t)            boolean term t
  ("eq", a, b) ("lt", a, b)  comparison (canonical: only == and <)
  ("is", t, variant)     enum value t is of the variant
pol is True/False/None (None: the atom influences the block, in a disjunction).
"""
from terms import show, strip_sites, walk, cname

NEG = {"Ne": ("Eq", True), "Le": ("Gt", True), "Ge": ("Lt", True)}
PREDV = {"Option::is_some": "Some", "Option::is_none": "None", "Result::is_ok": "Ok", "Result::is_err": "Err"}


def flip(p):
    return None if p is None else not p


def norm_bool(t, pol):
    """boolean term -> list of atoms"""
    k = t[0]
    if k == "un" and t[1] == "Not":
        return norm_bool(t[2], flip(pol))
    if k == "call" and t[1] == "Not::not":
        return norm_bool(t[2][0], flip(pol))
    if k == "bin":
        op, a, b = t[1], t[2], t[3]
        if op == "Ne":
            return [(flip(pol), "eq", a, b)] if not boolconst(a, b) else boolcmp(a, b, flip(pol))
        if op == "Eq":
            return [(pol, "eq", a, b)] if not boolconst(a, b) else boolcmp(a, b, pol)
        if op == "Lt":
            return [(pol, "lt", a, b)]
        if op == "Gt":
            return [(pol, "lt", b, a)]
        if op == "Le":
            return [(flip(pol), "lt", b, a)]
        if op == "Ge":
            return [(flip(pol), "lt", a, b)]
        if op in ("BitAnd", "BitOr"):
            p2 = pol if (op == "BitAnd") == (pol is True) else None
            return norm_bool(a, p2) + norm_bool(b, p2)
    if k == "call":
        n = t[1]
        last = n.split("::")[-1]
        if n in PREDV:
            v = PREDV[n]
            return [(pol, "is", t[2][0], v)] if v not in ("None", "Err") else [(flip(pol), "is", t[2][0], "Some" if v == "None" else "Ok")]
        if last == "eq" and len(t[2]) == 2:
            return [(pol, "eq", t[2][0], t[2][1])]
        if last == "ne" and len(t[2]) == 2:
            return [(flip(pol), "eq", t[2][0], t[2][1])]
        if last == "lt" and len(t[2]) == 2:
            return [(pol, "lt", t[2][0], t[2][1])]
        if last == "gt" and len(t[2]) == 2:
            return [(pol, "lt", t[2][1], t[2][0])]
        if last == "le" and len(t[2]) == 2:
            return [(flip(pol), "lt", t[2][1], t[2][0])]
        if last == "ge" and len(t[2]) == 2:
            return [(flip(pol), "lt", t[2][0], t[2][1])]
        if last == "is_empty":
            return [(pol, "empty", t[2][0])]
    if k == "phi":
        out = []
        for u in t[1]:
            if u[0] == "const":
                continue
            out += norm_bool(u, None)
        return out
    return [(pol, "true", t)]


def boolconst(a, b):
    return any(x[0] == "const" and x[1] == "bool" for x in (a, b))


def boolcmp(a, b, pol):
    if a[0] == "const":
        a, b = b, a
    v = b[2] if b[0] == "const" else True
    return norm_bool(a, pol if v else flip(pol))


class Guards:
    def __init__(self, T):
        self.T = T
        self.memo = {}

    def edge(self, body, b, s, depth=0):
        """atoms established by taking edge b->s"""
        key = (body.path, b, s)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = []
        r = self._edge(body, b, s, depth)
        self.memo[key] = r
        return r

    def _edge(self, body, b, s, depth):
        t = body.blocks[b]["t"]
        if t[0] != "switch":
            return []
        pos = (b, len(body.blocks[b]["s"]))
        if t[4] == "closure?":
            return []
        vals = [v for v, x in t[2] if x == s]
        other = t[3] == s
        o = t[1]
        if t[4] == "bool":
            if vals and other:
                return []
            pol = (vals[0] != 0) if vals else True
            if not vals and 0 not in [v for v, _ in t[2]]:
                pol = False
            return self.boolop(body, o, pos, pol, depth)
        # enum discriminant?
        if o[0] in "cm" and len(o[1]) == 1:
            ds = self.T.reaching(body, o[1][0], *pos)
            if len(ds) == 1 and ds[0] != ("param",) and ds[0][2] == "=" and ds[0][3][0] == "disc":
                rv = ds[0][3]
                base = self.T.place(body, rv[1], (ds[0][0], ds[0][1]))
                names = {d: n for d, n in rv[3]}
                alln = set(names.values())
                if other:
                    taken = {names.get(v) for v, x in t[2] if x != s}
                    rest = [n for n in names.values() if n not in taken]
                else:
                    rest = [names.get(v) for v in vals]
                return self.isatoms(base, rest, alln)
        tt = self.T.op(body, o, pos)
        if other and not vals:
            return [(False, "eq", tt, ("const", t[4], v)) for v, _ in t[2]]
        if len(vals) == 1 and not other:
            return [(True, "eq", tt, ("const", t[4], vals[0]))]
        return [(None, "eq", tt, ("const", t[4], v)) for v in vals]

    def isatoms(self, base, rest, alln):
        if base[0] == "call" and base[1] == "Try::branch":
            base = base[2][0]
            rest = ["Ok" if r == "Continue" else "Err" for r in rest]
            alln = {"Ok", "Err"}
        two = {"Some": "None", "Ok": "Err"}
        if alln == {"Some", "None"} or alln == {"Ok", "Err"}:
            if len(rest) == 1:
                if rest[0] in two:
                    return [(True, "is", base, rest[0])]
                pos = "Some" if rest[0] == "None" else "Ok"
                return [(False, "is", base, pos)]
            return []
        if len(rest) == 1:
            return [(True, "is", base, rest[0])]
        if len(rest) <= len(alln) - len(rest):
            return [(None, "is", base, r) for r in rest]
        return [(False, "is", base, r) for r in sorted(alln - set(rest))]

    def boolop(self, body, o, pos, pol, depth):
        """atoms of boolean operand o having value pol"""
        if depth > 25:
            return []
        if o[0] in "cm" and len(o[1]) == 1:
            l = o[1][0]
            ds = self.T.reaching(body, l, *pos)
            if len(ds) > 1 or (len(ds) == 1 and ds[0] != ("param",) and ds[0][2] == "=" and ds[0][3][0] in ("use", "un")):
                alts = []
                for d in ds:
                    if d == ("param",):
                        alts.append([(pol, "true", self.T.param(body, l))])
                        continue
                    blk, i, kind, pl = d
                    here = []
                    if kind == "=" and pl[0] == "use" and pl[1][0] == "k":
                        v = pl[1][1].get("v")
                        if v is not None and bool(v) != pol:
                            continue  # this definition cannot give pol
                    elif kind == "=" and pl[0] == "use":
                        here = self.boolop(body, pl[1], (blk, i), pol, depth + 1)
                    elif kind == "=" and pl[0] == "un" and pl[1] == "Not":
                        here = self.boolop(body, pl[2], (blk, i), not pol, depth + 1)
                    else:
                        here = norm_bool(self.T.defterm(body, d), pol)
                    if len(ds) > 1:
                        here = here + self.block(body, blk, depth + 1)
                    alts.append(here)
                if not alts:
                    return []
                if len(alts) == 1:
                    return alts[0]
                # disjunction: atoms common to all keep polarity, the others lose it
                sets = [{self.key(a): a for a in al} for al in alts]
                common = set(sets[0])
                for s in sets[1:]:
                    common &= set(s)
                out = [sets[0][k] for k in common]
                seen = set(common)
                for s in sets:
                    for k, a in s.items():
                        if k not in seen:
                            seen.add(k)
                            out.append((None,) + a[1:])
                return out
        return norm_bool(self.T.op(body, o, pos), pol)

    def key(self, a):
        return (a[0], a[1]) + tuple(strip_sites(x) if isinstance(x, tuple) else x for x in a[2:])

    def block(self, body, b, depth=0):
        """atoms for block b (transitive control dependence)"""
        key = (body.path, "blk", b)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = []
        # group: if b depends on several edges of the same branch, it is a disjunction
        out = {}
        byb = {}
        for (p, s) in body.cdeps_trans(b):
            byb.setdefault(p, []).append(s)
        for p, ss in byb.items():
            for s in ss:
                for a in self.edge(body, p, s, depth):
                    # polarity only certain if the edge dominates the block
                    if not (len(ss) == 1 and self.edge_dom(body, p, s, b)):
                        a = (None,) + a[1:]
                    out[self.key(a)] = a
        r = list(out.values())
        self.memo[key] = r
        return r

    def edge_dom(self, body, p, s, b):
        return body.dominates(s, b) and all(q == p or body.dominates(s, q) for q in body.preds[s])


def atxt(a):
    p = {True: "", False: "!", None: "~"}[a[0]]
    if a[1] == "true":
        return p + show(a[2])
    if a[1] in ("eq", "lt"):
        return f"{p}({show(a[2])} {'==' if a[1] == 'eq' else '<'} {show(a[3])})"
    if a[1] == "is":
        return f"{p}({show(a[2])} is {a[3]})"
    if a[1] == "empty":
        return f"{p}empty({show(a[2])})"
    return str(a)


def fields(t):
    """Adt.field names mentioned in a term"""
    out = set()
    for x in walk(t):
        if x[0] == "field" and x[2]:
            ad = x[2].split("::")
            out.add(f"{ad[-1]}.{x[3]}")
    return out


def calls(t):
    return {x[1] for x in walk(t) if x[0] == "call"}


def consts(t):
    return {x[2] for x in walk(t) if x[0] == "const"}


def aterms(a):
    return [x for x in a[2:] if isinstance(x, tuple)]
