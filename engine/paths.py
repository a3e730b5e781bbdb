"""Path queries on one (inlined) body, aware of which variant a local is known to hold."""
from flow import Engine, Rule

MAXST = 60000


class _Intra(Engine):
    def __init__(self, A):
        self.crate, self.cg, self.T = A.crate, A.cg, A.T
        self.rule = Rule()
        self.summ = {}
        self.inprog = set()
        self.hit = False
        self.rel = {}
        self.overflow = set()
        self.parents = {}
        self.relset = set()
        self.stale = set()


def feas(A, ib, starts, avoid=(), targets=None, edge=None, ret=None):
    """blocks reachable from `starts` along variant-consistent paths that do not enter `avoid`.
    Returns (set of blocks reached, first target met or None, path of blocks to it).
    `edge(b, succ)` may return False to prune an edge.  `ret(v)` says whether returning with
    abstract value v counts as a target (reported as "ret")."""
    eng = _Intra(A)
    live = eng.liveness(ib)
    avoid = set(avoid)
    targets = set(targets or ())
    seen = set()
    par = {}
    wl = []
    for s in starts:
        if s in avoid:
            continue
        st = (s, frozenset())
        seen.add(st)
        par[st] = None
        wl.append(st)
    reached = set()
    cnt = {}
    while wl:
        st = wl.pop()
        b, env = st
        reached.add(b)
        if b in targets:
            p = []
            x = st
            while x is not None:
                p.append(x[0])
                x = par[x]
            return reached, b, p[::-1]
        for nb, _, ne in eng.block(ib, b, 0, dict(env)):
            if nb == "ret":
                if ret is not None and ret(ne):
                    p = []
                    x = st
                    while x is not None:
                        p.append(x[0])
                        x = par[x]
                    return reached, "ret", p[::-1]
                continue
            if nb in avoid or (edge and not edge(b, nb)):
                continue
            lv = live[nb]
            items = frozenset((k, v) for k, v in ne.items() if not isinstance(k, int) or k in lv)
            cnt[nb] = cnt.get(nb, 0) + 1
            if cnt[nb] > 400 or len(seen) > MAXST:
                items = frozenset()
            ns = (nb, items)
            if ns not in seen:
                seen.add(ns)
                par[ns] = st
                wl.append(ns)
    return reached, None, []


def lines(ib, path):
    out = []
    for b in path:
        t = ib.blocks[b]["t"]
        ln = None
        if t[0] == "call":
            ln = t[5]
        elif t[0] == "switch":
            ln = t[5] if len(t) > 5 else None
        if ln is not None and (not out or out[-1] != ln):
            out.append(ln)
    return out


def calls_of(ib, *names):
    """blocks whose call's resolved or declared short name is one of names"""
    from terms import cname
    out = []
    for b, t in ib.calls():
        if "ind" in t[1]:
            continue
        p, r = cname(t[1])
        if p in names or r in names:
            out.append(b)
    return out


def variant(v):
    """variant name of an abstract return value, None if unknown"""
    return v[1] if v and v[0] == "v" else None


RESET = ("Vec::clear", "mem::take", "Vec::drain", "Vec::truncate", "mem::replace", "String::clear", "HashMap::clear", "HashSet::clear", "BTreeMap::clear", "Option::take", "VecDeque::clear", "HashMap::drain", "HashSet::drain")


def fkey(e):
    return f"{e[3].split('::')[-1]}.{e[2]}"


def stores(A, ib, field):
    """(block, index, value term) of assignments to a place ending in field"""
    out = []
    for b in sorted(ib.reach):
        bl = ib.blocks[b]
        for i, s in enumerate(bl["s"]):
            if s[0] == "=" and len(s[1]) > 1:
                pr = [e for e in s[1][1:] if e != "*"]
                if pr and pr[-1][0] == "f" and fkey(pr[-1]) == field:
                    out.append((b, i, A.T.rvalue(ib, s[2], (b, i))))
        t = bl["t"]
        if t[0] == "call" and len(t[3]) > 1:
            pr = [e for e in t[3][1:] if e != "*"]
            if pr and pr[-1][0] == "f" and fkey(pr[-1]) == field:
                out.append((b, "T", A.T.callterm(ib, b, t)))
    return out


def outer_field(t):
    """the field a place term finally names, through payload views"""
    while True:
        if t[0] == "field" and t[2] and not t[2].startswith(("std::", "core::", "alloc::")):
            return f"{t[2].split('::')[-1]}.{t[3]}"
        if t[0] in ("field", "down", "elem", "clone"):
            t = t[1]
        elif t[0] == "outer":
            t = t[2]
        else:
            return None


def opened(t):
    """all alternatives of a term"""
    return t[1] if t[0] == "phi" else (t,)


def recv(A, ib, b):
    """fields the receiver (argument 0) of the call ending block b may name"""
    t = ib.blocks[b]["t"]
    if t[0] != "call" or not t[2]:
        return set()
    return {f for u in opened(A.T.arg(ib, b, 0)) for f in [outer_field(u)] if f}


def resets(A, ib, field):
    """blocks where field is emptied or replaced"""
    out = {b for b, i, v in stores(A, ib, field)}
    for b in calls_of(ib, *RESET):
        if field in recv(A, ib, b):
            out.add(b)
    return out


def mut_calls(A, ib, field, names):
    return [b for b in calls_of(ib, *names) if field in recv(A, ib, b)]


def mentions(A, want):
    """bodies that directly name one of the fields"""
    key = ("_mentions",)
    if not hasattr(A, "_ment"):
        A._ment = {}
        for b in A.crate.bodies.values():
            fs = set()
            def pl(p):
                for e in p[1:]:
                    if e != "*" and e[0] == "f" and e[3]:
                        fs.add(fkey(e))
            from flow import rv_ops, rv_places, term_ops
            for k in b.reach:
                for s in b.blocks[k]["s"]:
                    if s[0] == "=":
                        pl(s[1])
                        for o in rv_ops(s[2]):
                            if o[0] in "cm":
                                pl(o[1])
                        for p in rv_places(s[2]):
                            pl(p)
                t = b.blocks[k]["t"]
                for o in term_ops(t):
                    if o[0] in "cm":
                        pl(o[1])
                if t[0] == "call":
                    pl(t[3])
            A._ment[b.path] = fs
    want = set(want)
    return {p for p, fs in A._ment.items() if fs & want}


def touching(A, want, depth=3, maxb=60):
    """small bodies that name one of the fields, directly or through calls"""
    cur = {p for p in mentions(A, want) if len(A.crate.bodies[p].reach) <= maxb}
    allp = set(cur)
    for _ in range(depth):
        nxt = set()
        todo = list(cur)
        while todo:
            p = todo.pop()
            for c, _x in A.cg.callers.get(p, ()):
                cb = A.crate.bodies.get(c)
                if cb is not None and c not in allp and c not in nxt and len(cb.reach) <= maxb:
                    nxt.add(c)
                    # a function split off later costs no depth
                    if not A.I.is_known(A.crate.bodies[p]):
                        todo.append(c)
        allp |= nxt
        cur = nxt
    return lambda b: b.path in allp


def guard(A, ib, b):
    return A.G.block(ib, b)


def has_empty(ats, field, pol):
    """a guard that field's collection is (pol True) / is not (False) empty, whatever the way it is asked"""
    for a in ats:
        if a[1] == "empty" and field in flds(a[2]) and a[0] is pol:
            return True
        if a[1] == "eq" and a[3][0] == "const" and a[3][2] == 0 and field in flds(a[2]) and a[0] is pol:
            return True
        if a[1] == "lt" and a[2][0] == "const" and a[2][2] == 0 and field in flds(a[3]) and a[0] is (not pol):
            return True
        if a[1] == "is" and a[3] == "Some" and field in flds(a[2]) and a[0] is (not pol):
            return True
    return False


def flds(t):
    from guards import fields
    return fields(t)
