"""Rule-writing helpers: one function seen with its helpers spliced in, its events and their conditions."""
from terms import cname, walk, show
from guards import atxt, fields
from paths import feas, stores, resets, recv, mut_calls, lines, variant, opened, outer_field, RESET, touching
from names import short


def tokens(t):
    """names a term mentions: fields (plain and Adt.field), calls (last segment and Type::fn), constants, variants, params"""
    out = set()
    for x in walk(t):
        k = x[0]
        if k == "field":
            out.add(x[3])
            if x[2]:
                out.add(f"{x[2].split('::')[-1]}.{x[3]}")
        elif k == "call":
            out.add(x[1])
            out.add(x[1].split("::")[-1])
        elif k == "const":
            out.add(str(x[2]))
        elif k == "agg":
            if x[3]:
                out.add(x[3])
            if x[2]:
                out.add(x[2].split("::")[-1])
        elif k == "down":
            out.add("@" + x[2])
        elif k == "param":
            out.add("$" + x[2])
        elif k in ("bin", "un"):
            out.add(x[1])
        elif k == "static":
            out.add(x[1].split("::")[-1])
        elif k == "fn":
            out.add(x[1].split("::")[-1])
        elif k == "elem":
            out.add("each")
    return out


def atokens(a):
    out = {a[1]}
    for x in a[2:]:
        if isinstance(x, tuple):
            out |= tokens(x)
        else:
            out.add(x)
    pol = a[0]
    # x.len() == 0 / 0 < x.len() are emptiness tests
    if a[1] == "eq" and "0" in out and out & {"len", "count"}:
        out.add("empty")
    if a[1] == "lt" and a[2][0] == "const" and a[2][2] == 0 and out & {"len", "count"}:
        out.add("empty")
        pol = None if pol is None else not pol
    return pol, out


def amatch(a, pat):
    """pat: '[!|~]tok tok|alt tok': all tokens present; '!' negative, '~' any polarity, default positive"""
    want = True
    if pat[0] == "!":
        want, pat = False, pat[1:]
    elif pat[0] == "~":
        want, pat = "any", pat[1:]
    pol, toks = atokens(a)
    if want != "any" and pol is not want:
        return False
    for w in pat.split():
        if not any(v in toks for v in w.split("|")):
            return False
    return True


def gany(gs, *pats):
    return any(any(amatch(a, p) for a in gs) for p in pats)


def gall(gs, *pats):
    return all(any(amatch(a, p) for a in gs) for p in pats)


class Site:
    def __init__(self, v, blk, line=None, idx=None, val=None):
        self.v, self.blk, self.line, self.idx, self.val = v, blk, line, idx, val

    @property
    def guards(self):
        return self.v.A.G.block(self.v.ib, self.blk)

    def has(self, *pats):
        """every pattern is met by some guard"""
        return all(any(amatch(a, p) for a in self.guards) for p in pats)

    def any(self, *pats):
        return any(any(amatch(a, p) for a in self.guards) for p in pats)

    def arg(self, k):
        return self.v.A.T.arg(self.v.ib, self.blk, k)

    def args(self):
        return self.v.A.T.args(self.v.ib, self.blk)

    def nargs(self):
        return len(self.v.ib.blocks[self.blk]["t"][2])

    def cases(self, k):
        """[(term, guards)] of argument k, one per definition it may come from"""
        v = self.v
        t = v.ib.blocks[self.blk]["t"]
        return [(x, g + self.guards) for x, g in v.cases(t[2][k], (self.blk, len(v.ib.blocks[self.blk]["s"])))]

    def toks(self, k=None):
        if self.val is not None and k is None:
            return tokens(self.val)
        if k is None:
            out = set()
            for a in self.args():
                out |= tokens(a)
            return out
        return tokens(self.arg(k))

    @property
    def name(self):
        return cname(self.v.ib.blocks[self.blk]["t"][1])[1]

    @property
    def at(self):
        o = self.v.ib.blocks[self.blk]["o"] if "o" in self.v.ib.blocks[self.blk] else self.v.body
        ln = self.line
        if ln is None:
            t = self.v.ib.blocks[self.blk]["t"]
            ln = t[5] if t[0] == "call" else o.line
        return f"{o.file}:{ln}"

    def gtxt(self):
        return " & ".join(sorted(atxt(a) for a in self.guards))


class View:
    """function `name` of bundle A with unknown helpers, plus those `want` selects, spliced in"""

    def __init__(self, A, body, want=None, tag="v"):
        self.A = A
        self.body = body
        self.ib = A.I.get(body, want, tag)

    def calls(self, *names):
        out = []
        for b, t in self.ib.calls():
            if "ind" in t[1]:
                continue
            p, r = cname(t[1])
            if p in names or r in names or p.split("::")[-1] in names and "::" not in p.split("::")[-1] and any("::" not in n and n == p.split("::")[-1] for n in names) or any("::" not in n and n == r.split("::")[-1] for n in names):
                out.append(Site(self, b, t[5]))
        return out

    def stores(self, field):
        out = []
        for b, i, v in stores(self.A, self.ib, field):
            bl = self.ib.blocks[b]
            ln = bl["s"][i][3] if i != "T" else bl["t"][5]
            out.append(Site(self, b, ln, i, v))
        return out

    def resets(self, field):
        return [Site(self, b) for b in sorted(resets(self.A, self.ib, field))]

    def muts(self, field, *names):
        return [Site(self, b) for b in mut_calls(self.A, self.ib, field, names)]

    def aggs(self, adt):
        """sites building struct adt: Site.val is the aggregate term"""
        out = []
        for b in sorted(self.ib.reach):
            for i, s in enumerate(self.ib.blocks[b]["s"]):
                if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "adt" and (s[2][2].split("::")[-1] == adt or f"{s[2][2].split('::')[-1]}::{s[2][3]}" == adt):
                    out.append(Site(self, b, s[3], i, self.A.T.rvalue(self.ib, s[2], (b, i))))
        return out

    def cases(self, o, pos, depth=0):
        A, ib = self.A, self.ib
        if o[0] in "cm" and depth < 12 and all(e == "*" for e in o[1][1:]):
            l = o[1][0]
            ds = A.T.reaching(ib, l, *pos)
            out = []
            for d in ds:
                if d == ("param",):
                    out.append((A.T.param(ib, l), []))
                    continue
                blk, i, kind, pl = d
                g = A.G.block(ib, blk) if len(ds) > 1 else []
                if kind == "=" and pl[0] == "use":
                    sub = self.cases(pl[1], (blk, i), depth + 1)
                elif kind == "=" and pl[0] == "ref" and all(e == "*" for e in pl[2][1:]):
                    sub = self.cases(["c", pl[2]], (blk, i), depth + 1)
                elif kind == "call" and "ind" not in pl[1] and set(cname(pl[1])) & {"Deref::deref", "DerefMut::deref_mut", "Option::as_mut", "RefCell::borrow_mut", "RefCell::borrow"}:
                    sub = self.cases(pl[2][0], (blk, len(ib.blocks[blk]["s"])), depth + 1)
                else:
                    sub = [(A.T.defterm(ib, d), [])]
                out += [(x, g + h) for x, h in sub]
            if out:
                return out
        return [(A.T.op(ib, o, pos), [])]

    def retcases(self):
        """[(term, guards)] of the returned value"""
        out = []
        for b in self.ib.exits:
            out += [(x, g + self.A.G.block(self.ib, b)) for x, g in self.cases(["c", [0]], (b, len(self.ib.blocks[b]["s"])))]
        return out

    # ---- paths ----
    def after(self, sites):
        out = []
        for s in sites:
            out += self.ib.succs[s.blk]
        return out

    def path(self, starts, avoid=(), to=(), ret=None, edge=None):
        """line trace of a path from starts to a target avoiding the given sites, or None"""
        st = [s.blk if isinstance(s, Site) else s for s in starts]
        av = [s.blk if isinstance(s, Site) else s for s in avoid]
        tg = [s.blk if isinstance(s, Site) else s for s in to]
        _, hit, p = feas(self.A, self.ib, st, av, tg, edge, ret)
        return lines(self.ib, p) if hit is not None else None

    def entry(self):
        return [0]

    def ret(self):
        return self.A.T.ret(self.ib)

    def ret_aggs(self, variant_):
        """blocks that build the returned Ok/Err directly"""
        return [s for s in self.aggs("Result::" + variant_)]


def is_err(v):
    return variant(v) in ("Err", None)


def is_err_only(v):
    return variant(v) == "Err"


def is_ok(v):
    return variant(v) == "Ok"
