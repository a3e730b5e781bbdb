"""Guarded-effect summaries of functions, and their comparison with the reviewed ones.

A function (unknown and small pure helpers spliced in) is reduced to what it does:
its effects (stores to non-local places, calls that change something or talk to the
host, mutations of collections, the value returned), each with a canonical value and
the exact condition under which it happens.  Conditions are boolean functions over
canonical atoms, so nesting, early returns, extracted helpers and reordered tests do
not matter.  compare() reports effects that were lost, added, given another value, or
made conditional on something else than the reviewed summary says.
"""
import hashlib
import json
import re
from functools import lru_cache
from names import short, short_ty
from terms import cname, walk, TRANSPARENT, VALUE_ID, kept_best
from strshape import decode_template

T1, T0 = 1, 0


class BDD:
    def __init__(self):
        self.nodes = [None, None]
        self.uniq = {}
        self.memo = {}
        self.order = {}
        self.names = []

    def var(self, name):
        if name not in self.order:
            self.order[name] = len(self.names)
            self.names.append(name)
        return self.mk(self.order[name], 0, 1)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = r
            if r > 400000:
                raise OverflowError
        return r

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.memo.get(k)
        if r is not None:
            return r
        vs = [self.nodes[x][0] for x in (f, g, h) if x > 1]
        v = min(vs)

        def co(x, b):
            if x > 1 and self.nodes[x][0] == v:
                return self.nodes[x][2 if b else 1]
            return x
        r = self.mk(v, self.ite(co(f, 0), co(g, 0), co(h, 0)), self.ite(co(f, 1), co(g, 1), co(h, 1)))
        self.memo[k] = r
        if len(self.memo) > self.cap:
            raise OverflowError
        return r

    cap = 250000

    def AND(self, a, b):
        return self.ite(a, b, 0)

    def OR(self, a, b):
        return self.ite(a, 1, b)

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def XOR(self, a, b):
        return self.ite(a, self.NOT(b), b)

    def support(self, f):
        out, seen, st = set(), set(), [f]
        while st:
            x = st.pop()
            if x < 2 or x in seen:
                continue
            seen.add(x)
            v, lo, hi = self.nodes[x]
            out.add(self.names[v])
            st += [lo, hi]
        return out

    def dump(self, f):
        """[[name, lo, hi], ...] children first; 0/1 are terminals, node k is k+2"""
        idx, out = {0: 0, 1: 1}, []

        def go(x):
            if x in idx:
                return
            v, lo, hi = self.nodes[x]
            go(lo)
            go(hi)
            out.append([self.names[v], idx[lo], idx[hi]])
            idx[x] = len(out) + 1
        go(f)
        return out if f > 1 else f

    def load(self, d, ren=None):
        if isinstance(d, int):
            return d
        m = {0: 0, 1: 1}
        for k, (n, lo, hi) in enumerate(d):
            v = ren.get(n, n) if ren else n
            if isinstance(v, int):
                vv = v
            else:
                neg = v.startswith("¬")
                vv = self.var(v[1:] if neg else v)
                if neg:
                    vv = self.NOT(vv)
            m[k + 2] = self.ite(vv, m[hi], m[lo])
        return m[len(d) + 1]

    def exists(self, f, names):
        for n in names:
            if n in self.order:
                v = self.order[n]
                f = self.OR(self.restrict(f, v, 0), self.restrict(f, v, 1))
        return f

    def forall(self, f, names):
        return self.NOT(self.exists(self.NOT(f), names))

    def restrict(self, f, v, b, memo=None):
        memo = {} if memo is None else memo
        if f < 2 or self.nodes[f][0] > v:
            return f
        if f in memo:
            return memo[f]
        w, lo, hi = self.nodes[f]
        if w == v:
            r = hi if b else lo
        else:
            r = self.mk(w, self.restrict(lo, v, b, memo), self.restrict(hi, v, b, memo))
        memo[f] = r
        return r


def ftext(B, f):
    """order-independent text of a formula"""
    if f < 2:
        return str(bool(f))
    v, lo, hi = B.nodes[f]
    if (lo, hi) == (0, 1):
        return f"[{B.names[v]}]"
    if (lo, hi) == (1, 0):
        return f"[not {B.names[v]}]"
    C = BDD()
    for n in sorted(B.support(f)):
        C.var(n)
    if len(C.names) > 16:
        return "{" + "|".join(C.names) + "}"
    g = C.load(B.dump(f))

    def go(x):
        if x < 2:
            return "01"[x]
        v, lo, hi = C.nodes[x]
        return f"({C.names[v]}?{go(hi)}:{go(lo)})"
    return go(g)


SUCC = {"Some": "S", "Ok": "S", "Continue": "S", "None": "N", "Err": "N", "Break": "N"}
PURE_STD_RECV = {"Vec::len"}
ITER_ID = {"IntoIterator::into_iter", "[T]::iter", "[T]::iter_mut", "Iterator::by_ref", "Vec::iter", "HashMap::iter", "HashMap::iter_mut", "Iterator::copied",
           "Iterator::cloned", "Vec::into_iter", "Iterator::peekable", "HashSet::iter", "BTreeMap::iter", "Map::iter", "HashMap::into_iter", "slice::iter", "BTreeSet::iter"}
PAYLOAD = {"Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect", "Result::ok", "Option::ok_or", "Option::ok_or_else", "Option::unwrap_or_else", "Result::map_err",
           "Result::unwrap_or_else", "Try::branch", "Option::as_deref", "Option::as_deref_mut", "hint::must_use", "Option::take?", "Rc::from", "Vec::from", "str::as_ref", "Vec::as_slice",
           "String::as_bytes?", "Rc::clone", "Iterator::collect?", "Rc::downgrade?", "String::into_string", "[T]::to_vec", "Box::from"}
GETS = {"HashMap::remove", "BTreeMap::remove", "Map::remove", "HashMap::get", "HashMap::get_mut", "[T]::get", "[T]::get_mut", "Index::index", "IndexMut::index_mut", "BTreeMap::get", "BTreeMap::get_mut", "Map::get", "Value::get", "HashMap::get_key_value", "Map::get_mut"}
CONTAINS = {"HashMap::contains_key", "BTreeMap::contains_key", "Map::contains_key"}
INTS = {"usize", "isize", "i32", "u32", "i64", "u64", "u8", "i8", "u16", "i16", "u128", "i128"}
LMUT_OPS = {"Vec::push", "String::push_str", "String::push", "Vec::insert", "HashMap::insert", "HashSet::insert", "BTreeMap::insert", "BTreeSet::insert", "Vec::extend", "Vec::extend_from_slice", "Vec::append",
            "Vec::remove", "Vec::pop", "Vec::clear", "Vec::truncate", "[T]::sort_by", "[T]::sort", "[T]::reverse", "[T]::sort_by_key", "Map::insert", "HashMap::remove", "HashSet::remove", "Extend::extend", "VecDeque::push_back", "VecDeque::pop_front", "Vec::retain", "Vec::drain", "Vec::swap", "[T]::swap"}


ADAPT = {"map", "filter", "any", "all", "find", "position", "fold", "for_each", "filter_map", "flat_map", "find_map", "map_or", "map_or_else", "and_then", "is_some_and", "or_else", "collect", "retain", "unwrap_or_else", "then", "then_some", "zip", "chain", "sum", "count", "extend", "max_by_key", "min_by_key", "sort_by", "sort_by_key", "rposition", "try_for_each", "is_none_or", "windows", "take_while", "skip_while"}


FULL = {}   # hash in a shortened text -> (shortened, full)
READS = re.compile(r"\.([a-z_]\w*)|((?:\w+::)*[A-Z]?\w*::[a-z_]\w*)\(")
CUT = re.compile("…([0-9a-f]{8})")


def dig(s, n=200):
    if len(s) <= n:
        return s
    h = hashlib.md5(s.encode()).hexdigest()[:8]
    t = s[:n - 12] + "…" + h
    FULL.setdefault(h, (t, s))
    return t


@lru_cache(None)
def full(s):
    """the text with every shortening undone"""
    for _ in range(20):
        n = s
        for h in set(CUT.findall(s)):
            if h in FULL and FULL[h][0] in n:
                n = n.replace(FULL[h][0], FULL[h][1])
        if n == s or len(n) > 20000:
            return s
        s = n
    return s


class Summ:
    """summary of one inlined body"""

    def __init__(self, A, ib, C, local=False):
        self.A, self.ib, self.C = A, ib, C
        self.local = local      # conditions relative to the nearest branches only
        self.T = A.T
        self.B = BDD()
        self.cmemo = {}
        self.kmemo = {}
        self.tmemo = {}
        self.meta = {}      # atom -> (kind, subject, value, n)
        self.curp = 0       # the block whose test or value is being read
        self.wmemo = {}
        self.bmemo = {}
        self.pmemo = {}
        self.inloop = set().union(*ib.loops.values()) if ib.loops else set()
        self.ldmemo = {}
        self.rpo = self.looporder()
        self.mutref = {st[2][2][0] for b in ib.reach for st in ib.blocks[b]["s"] if st[0] == "=" and st[2][0] == "ref" and (st[2][1] is True or "mut" in str(st[2][1]).lower()) and len(st[2][2]) == 1 and ib.local_ty(st[2][2][0]) == "bool"}
        self.order = {b: i for i, b in enumerate(self.rpo)}
        self.vvmemo = {}
        self.fs = self.forward()
        self.canret = self.can_return()
        self.loops = ib.loops
        self.iterexit = self.loop_tests()

    # ---- cfg ----
    def looporder(self):
        """reverse post-order in which a loop comes before what follows it"""
        ib = self.ib
        dep = {b: 0 for b in ib.reach}
        for h, body in ib.loops.items():
            for x in body:
                dep[x] = dep.get(x, 0) + 1
        post, seen = [], {0}
        st = [(0, iter(sorted(ib.fsuccs[0], key=lambda x: dep.get(x, 0))))]
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(sorted(ib.fsuccs[x], key=lambda y: dep.get(y, 0)))))
                    break
            else:
                post.append(b)
                st.pop()
        return post[::-1]

    def forward(self):
        fs = {}
        for b in self.ib.reach:
            out = []
            for x in self.ib.fsuccs[b]:
                if self.order.get(x, 0) > self.order[b]:
                    out.append(x)
            fs[b] = out
        self.fpreds = {b: [] for b in self.ib.reach}
        for b, ss in fs.items():
            for s in ss:
                self.fpreds[s].append(b)
        return fs

    def can_return(self):
        ok = set(self.ib.exits)
        st = list(ok)
        while st:
            b = st.pop()
            for p in self.ib.preds[b]:
                if p in self.ib.reach and p not in ok:
                    ok.add(p)
                    st.append(p)
        # endless main loops: treat blocks in loops that never return as live
        for h, body in self.ib.loops.items():
            if not any(x in ok for x in body):
                ok |= body
        if not self.ib.exits:
            ok = set(self.ib.reach)
        return ok

    def loop_tests(self):
        """blocks whose branch is the loop's own continue-or-leave test -> the exits"""
        out = {}
        for h, body in self.loops.items():
            b, seen = h, set()
            while len(self.ib.succs[b]) == 1 and b not in seen and self.ib.succs[b][0] in body:
                seen.add(b)
                b = self.ib.succs[b][0]
            ex = {x for x in self.ib.succs[b] if x not in body}
            if ex:
                out[b] = (ex, body)
        return out

    # ---- conditions ----
    def cond(self, b):
        if b in self.cmemo:
            return self.cmemo[b]
        # iterative in rpo order
        for x in self.rpo:
            if x in self.cmemo:
                continue
            if self.order[x] > self.order[b]:
                break
            self.cmemo[x] = self._cond(x)
        return self.cmemo[b]

    def _cond(self, b):
        if b == 0:
            return T1
        ib = self.ib
        d = ib.idom.get(b)
        if d is not None and d != b and d in self.cmemo and b in ib.ipdom and ib.postdominates(b, d):
            return self.cmemo[d]
        f = T0
        if self.local:
            for p, s in ib.cdeps.get(b, ()):
                f = self.B.OR(f, self.edge(p, s))
            return f if f != T0 else T1
        for p in self.fpreds[b]:
            f = self.B.OR(f, self.edgecond(p, b))
        return f

    def edgecond(self, p, s):
        """condition of reaching p and going to s"""
        c = self.cmemo.get(p)
        if c is None:
            c = self.cond(p)
        if c == 0:
            return 0
        e = self.edge(p, s)
        return self.B.AND(c, e)

    def edge(self, p, s):
        k = ("e", p, s)
        if k in self.kmemo:
            return self.kmemo[k]
        self.kmemo[k] = T1
        c, self.curp = self.curp, p
        r = self._edge(p, s)
        self.curp = c
        self.kmemo[k] = r
        return r

    chain = False

    def apart(self, x, p):
        """no path runs through both blocks (told by what was tested before any write)"""
        if x in self.inloop or x not in self.cmemo or p not in self.cmemo:
            return False
        a, b = self.plain(x), self.plain(p)
        return a != T1 and b != T1 and self.B.AND(a, b) == T0

    def plain(self, x):
        """a block's condition with the tests of possibly changed memory left open"""
        f = self.cmemo[x]
        if f not in self.pmemo:
            self.pmemo[f] = self.B.exists(f, {n for n in self.B.support(f) if "′" in n})
        return self.pmemo[f]

    def written(self, p):
        """fields that may have been written before block p is left"""
        if p not in self.wmemo:
            seen, st = set(), [p]
            W = set()
            at = self.A.E.writes_at(self.ib)
            while st:
                x = st.pop()
                for y in self.ib.preds[x]:
                    if y in self.ib.reach and y not in seen:
                        seen.add(y)
                        st.append(y)
            for x in seen | {p}:
                for (i, r, f, what, ln) in at.get(x, ()):
                    if f and not (r and r[0] == "fresh") and (x in seen or i != "T") and f[-1] not in W and not (x != p and self.apart(x, p)):
                        W.add(f[-1])
            self.wmemo[p] = (W, {w.split(".")[-1] for w in W})
        return self.wmemo[p]

    def between(self, b, i, u, n):
        """fields that may be written after (b, i) and before (u, n)"""
        k = (b, i, u, n)
        if k not in self.bmemo:
            at = self.A.E.writes_at(self.ib)
            W = set()

            def take(x, lo, hi):
                for (j, r, f, what, ln) in at.get(x, ()):
                    m = len(self.ib.blocks[x]["s"]) if j == "T" else j
                    if f and not (r and r[0] == "fresh") and lo < m < hi and not (x != u and self.apart(x, u)):
                        W.add(f[-1].split(".")[-1])
            if b == u and i < n:
                take(b, i, n)
            else:
                take(b, i, 1 << 30)
                F, st = set(), [b]
                while st:
                    for y in self.ib.succs[st.pop()]:
                        if y not in F and y != b:
                            F.add(y)
                            st.append(y)
                R, st = {u}, [u]
                while st:
                    for y in self.ib.preds[st.pop()]:
                        if y in self.ib.reach and y not in R and y != b:
                            R.add(y)
                            st.append(y)
                for x in F & R:
                    take(x, -1, n if x == u else 1 << 30)
            self.bmemo[k] = W
        return self.bmemo[k]

    def old(self, o, pos):
        """whether an operand holds something read before a later write to where it was read from"""
        return self.stale(self.loads(o, pos), pos)

    def stale(self, loads, u):
        for (b, i, fs) in loads:
            W = self.between(b, i, *u)
            if W and fs & W:
                return True
        return False

    def loads(self, o, pos, depth=0):
        """the places in memory an operand's value was read from: {(block, index, fields)}"""
        if o[0] not in "cm":
            return frozenset()
        return self.ploads(o[1], pos, depth, o[0] == "c")

    def ploads(self, pl, pos, depth, copy):
        ib = self.ib
        out = set()
        if "*" in pl[1:]:
            if copy and not self.owned(pl[0], pos):
                t = self.canon(self.T.place(ib, pl, pos))
                fs, cs = self.C.mentioned(t)
                for c in cs:
                    fs = fs | {x.split(".")[-1] for x in c}
                if fs:
                    out.add((pos[0], pos[1], frozenset(fs)))
        return frozenset(out) | self.lloads(pl[0], pos, depth)

    def lloads(self, l, pos, depth):
        ib = self.ib
        ds = self.T.reaching(ib, l, *pos)
        k = (l, tuple((d[0], d[1]) if d != ("param",) else d for d in ds))
        if k in self.ldmemo:
            return self.ldmemo[k]
        self.ldmemo[k] = frozenset()
        out = set()
        if depth < 40 and len(ds) < 12:
            for d in ds:
                if d != ("param",):
                    out |= self.dloads(d, depth + 1)
        self.ldmemo[k] = frozenset(out)
        return self.ldmemo[k]

    def dloads(self, d, depth):
        ib = self.ib
        b, i, kind, pl = d
        out = set()
        if kind == "=":
            k = pl[0]
            ops = []
            if k == "use":
                ops = [pl[1]]
            elif k == "ref":
                return self.lloads(pl[2][0], (b, i), depth)
            elif k == "bin":
                ops = [pl[2], pl[3]]
            elif k in ("un", "cast"):
                ops = [pl[2]]
            elif k == "disc":
                return self.ploads(pl[1], (b, i), depth, True)
            elif k == "agg":
                ops = pl[5]
            for x in ops:
                out |= self.loads(x, (b, i), depth)
            return out
        t = pl
        n = len(ib.blocks[b]["s"])
        for a in t[2]:
            out |= self.loads(a, (b, n), depth)
        ty = ib.local_ty(t[3][0]) if len(t[3]) == 1 else ""
        f = t[1]
        if "ind" in f or not ty or ty[0] == "&" or ty.startswith(("std::cell::Ref", "std::option::Option<&", "std::result::Result<&", "core::", "std::slice::", "std::iter", "std::ops::ControlFlow<")) or ty == "()":
            return out
        pn, rn = cname(f)
        tg = self.A.cg.targets(f)
        if tg and not all(self.C.pure(x) for x in tg):
            return frozenset()      # the call is an effect of its own
        if pn in ("FromResidual::from_residual", "Try::branch"):
            return out
        if any(a[0] == "c" or a[0] == "m" and ib.local_ty(a[1][0]).startswith(("&", "std::cell::Ref")) and not self.owned(a[1][0], (b, n)) for a in t[2]):
            x = self.canon(self.T.callterm(ib, b, t))
            fs, cs = self.C.mentioned(x)
            for c in cs:
                fs = fs | {y.split(".")[-1] for y in c}
            if fs:
                out.add((b, n, frozenset(fs)))
        return out

    def fresh_read(self, text):
        """whether what the text reads may have been written since the function was entered"""
        W, names = self.written(self.curp)
        if not W:
            return False
        fs, cs = self.C.mentioned(text)
        return bool(fs & names) or any(r & W for r in cs)

    def _edge(self, p, s):
        ib = self.ib
        t = ib.blocks[p]["t"]
        if t[0] != "switch":
            return T1
        if s not in ib.succs[p]:
            return T1       # redirected back edge
        if t[4] == "closure?":
            return T1
        if p in self.iterexit:
            ex, body = self.iterexit[p]
            if s in ex:
                return T1
            if self.is_iter_test(p):
                return self.inside(p)
        # branches that cannot return put no condition on the others
        if s in self.canret and not any(x in self.canret for x in ib.succs[p] if x != s):
            return T1
        o, pos = t[1], (p, len(ib.blocks[p]["s"]))
        vals = [v for v, x in t[2] if x == s]
        other = t[3] == s
        if t[4] == "bool":
            if vals and other:
                return T1
            pol = (vals[0] != 0) if vals else True
            if not vals and 0 not in [v for v, _ in t[2]]:
                pol = False
            return self.boolf(o, pos) if pol else self.nboolf(o, pos)
        if o[0] in "cm" and len(o[1]) == 1:
            ds = self.T.reaching(ib, o[1][0], *pos)
            if len(ds) == 1 and ds[0] != ("param",) and ds[0][2] == "=" and ds[0][3][0] == "disc":
                rv = ds[0][3]
                names = {d: n for d, n in rv[3]}
                n = len(names)
                dpos = (ds[0][0], ds[0][1])
                f = T0
                if vals:
                    for v in vals:
                        f = self.B.OR(f, self.isf(rv[1], dpos, names.get(v), n))
                    if self.chain and not other:
                        # spelled out, the arms of a wide match keep small together
                        for v in names:
                            if v not in vals:
                                f = self.B.AND(f, self.B.NOT(self.isf(rv[1], dpos, names.get(v), n)))
                if other:
                    taken = {v for v, x in t[2]}
                    rest = [v for v in names if v not in taken]
                    g = T1
                    for v in taken:
                        g = self.B.AND(g, self.B.NOT(self.isf(rv[1], dpos, names.get(v), n)))
                    f = self.B.OR(f, g) if vals else g
                return f
        tt = self.canon(self.T.op(ib, o, pos))
        at = lambda v: self.atom("eq", tt, str(v) if t[4] != "char" or not isinstance(v, int) else json.dumps(chr(v), ensure_ascii=False))
        if other and not vals:
            f = T1
            for v, _ in t[2]:
                f = self.B.AND(f, self.B.NOT(at(v)))
            return f
        f = T0
        for v in vals:
            f = self.B.OR(f, at(v))
        if other:
            g = T1
            for v, x in t[2]:
                if x != s:
                    g = self.B.AND(g, self.B.NOT(at(v)))
            f = g
        return f

    def inside(self, p):
        """what the way an iterator is made says about there being anything to iterate"""
        tt = self.T.op(self.ib, self.ib.blocks[p]["t"][1], (p, len(self.ib.blocks[p]["s"])))
        r = T1
        for x in walk(tt):
            if x[0] == "call" and x[1] == "Iterator::flatten" and len(x) > 3 and x[3][0] == self.ib.path and self.flat_option(x):
                b = x[3][1]
                cp, self.curp = self.curp, b
                r = self.B.AND(r, self.isop(self.ib.blocks[b]["t"][2][0], (b, len(self.ib.blocks[b]["s"])), "S", 2, 0))
                self.curp = cp
        return r

    def flat_option(self, t):
        f = self.A.E.call_at(t[3]) if len(t) > 3 else None
        return bool(f) and bool(f.get("ga")) and f["ga"][0].replace("&", "").startswith(("std::option::", "core::option::"))

    def is_iter_test(self, p):
        """the loop test asks an iterator or a counter against a bound"""
        ib = self.ib
        t = ib.blocks[p]["t"]
        o, pos = t[1], (p, len(ib.blocks[p]["s"]))
        tt = self.T.op(ib, o, pos)
        if tt[0] == "disc":
            x = tt[1]
            return x[0] == "call" and x[1].split("::")[-1] in ("next", "next_back")
        s = self.canon(tt)
        return tt[0] == "bin" and tt[1] in ("Lt", "Le", "Gt", "Ge", "Ne") and "#i" in s

    # ---- boolean operands ----
    def boolf(self, o, pos, depth=0):
        """formula of a boolean operand at pos"""
        if o[0] == "k":
            v = o[1].get("v")
            if isinstance(v, bool):
                return T1 if v else T0
            return self.termf(self.T.op(self.ib, o, pos))
        pl = o[1]
        if len(pl) == 1:
            return self.localf(pl[0], pos, depth, ("bool",))
        return self.termf(self.T.place(self.ib, pl, pos))

    def nboolf(self, o, pos, depth=0):
        """formula of a boolean operand being false: what a loop that ends early leaves behind may be either"""
        if o[0] != "k" and len(o[1]) == 1:
            return self.localf(o[1][0], pos, depth, ("nbool",))
        return self.B.NOT(self.boolf(o, pos, depth))

    def localf(self, l, pos, depth, q):
        """q = ("bool",) or ("is", variant, n): formula that local l satisfies q at pos"""
        ib = self.ib
        if depth > 40:
            return self.fallback(l, pos, q)
        if q[0] == "nbool" and depth <= 40:
            ds = self.T.reaching(ib, l, *pos)
            if l in self.mutref or not ds:
                return self.B.NOT(self.localf(l, pos, depth, ("bool",)))
        if q[0] == "bool" and l in self.mutref:
            return self.atom("true", "φ{False|True}")
        ds = self.T.reaching(ib, l, *pos)
        if not ds:
            return self.fallback(l, pos, q)
        if len(ds) == 1:
            return self.deff(l, ds[0], depth, q)
        here = self.order.get(pos[0], 0)
        for d in ds:
            if d != ("param",) and (self.order.get(d[0], 0) > here or d[0] == pos[0] and not (d[1] != "T" and pos[1] != "T" and d[1] < pos[1])):
                return self.fallback(l, pos, q)      # loop-carried
        # propagate along the acyclic graph
        start = min((self.order[d[0]] for d in ds if d != ("param",)), default=0)
        if ("param",) in ds:
            start = 0
        dblk = {d[0]: d for d in ds if d != ("param",)}
        if self.local:
            f = T0
            for d in ds:
                if d == ("param",):
                    f = self.B.OR(f, self.fallback(l, pos, q, param=True))
                else:
                    f = self.B.OR(f, self.B.AND(self.cond(d[0]) if d[0] != 0 else T1, self.deff(l, d, depth + 1, q)))
            return f
        key = ("tv", l, q, pos[0], tuple(sorted((d[0], str(d[1])) for d in ds if d != ("param",))))
        if key in self.vvmemo:
            return self.vvmemo[key]
        self.vvmemo[key] = self.fallback(l, pos, q)
        tv = {}
        end = here
        anc = self.ancestors(pos[0])
        for x in self.rpo[start:end + 1]:
            if x not in anc:
                continue
            if x == 0 and ("param",) in ds:
                tin = self.fallback(l, pos, q, param=True)
            else:
                tin = T0
                for p in self.fpreds[x]:
                    if p in tv:
                        tin = self.B.OR(tin, self.B.AND(tv[p], self.edge(p, x)))
            if x == pos[0] and not (x in dblk and dblk[x][1] != "T"):
                r = tin
                break
            if x in dblk:
                d = dblk[x]
                tv[x] = self.B.AND(self.cond(x), self.deff(l, d, depth + 1, q))
            elif tin != T0:
                tv[x] = tin
        else:
            r = tv.get(pos[0], T0)
        self.vvmemo[key] = r
        return r

    def ancestors(self, b):
        k = ("anc", b)
        if k not in self.kmemo:
            seen = {b}
            st = [b]
            while st:
                x = st.pop()
                for p in self.fpreds[x]:
                    if p not in seen:
                        seen.add(p)
                        st.append(p)
            self.kmemo[k] = seen
        return self.kmemo[k]

    def fallback(self, l, pos, q, param=False):
        t = self.T.param(self.ib, l) if param else self.T.local(self.ib, l, pos)
        if q[0] == "nbool":
            return self.B.NOT(self.fallback(l, pos, ("bool",), param))
        if q[0] == "bool":
            if t[0] == "phi":
                return self.atom("true", self.canon(t))
            return self.termf(t)
        return self.isatom(t, q[1], q[2])

    def deff(self, l, d, depth, q):
        ib = self.ib
        if d == ("param",):
            t = self.T.param(ib, l)
            if q[0] == "nbool":
                return self.B.NOT(self.termf(t))
            return self.termf(t) if q[0] == "bool" else self.isatom(t, q[1], q[2])
        c, self.curp = self.curp, d[0]
        r = self._deff(l, d, depth, q)
        self.curp = c
        return r

    def _deff(self, l, d, depth, q):
        ib = self.ib
        blk, i, kind, pl = d
        pos = (blk, i if i != "T" else len(ib.blocks[blk]["s"]))
        if q[0] == "nbool":
            if kind == "=" and pl[0] == "use":
                return self.nboolf(pl[1], pos, depth + 1)
            if kind == "=" and pl[0] == "un" and pl[1] == "Not":
                return self.boolf(pl[2], pos, depth + 1)
            return self.B.NOT(self._deff(l, d, depth, ("bool",)))
        if q[0] == "bool":
            if kind == "=":
                if pl[0] == "use":
                    return self.boolf(pl[1], pos, depth + 1)
                if pl[0] == "un" and pl[1] == "Not":
                    return self.nboolf(pl[2], pos, depth + 1)
                if pl[0] == "bin" and pl[1] in ("BitAnd", "BitOr", "BitXor"):
                    a, b = self.boolf(pl[2], pos, depth + 1), self.boolf(pl[3], pos, depth + 1)
                    return {"BitAnd": self.B.AND, "BitOr": self.B.OR, "BitXor": self.B.XOR}[pl[1]](a, b)
                if pl[0] == "bin" and pl[1] in ("Eq", "Ne"):
                    for x, y in ((pl[2], pl[3]), (pl[3], pl[2])):
                        if y[0] == "k" and isinstance(y[1].get("v"), bool):
                            f = self.boolf(x, pos, depth + 1)
                            return f if y[1]["v"] == (pl[1] == "Eq") else self.B.NOT(f)
                return self.termf(self.T.defterm(ib, d))
            t = pl
            if "ind" not in t[1]:
                pn, rn = cname(t[1])
                if pn in ("Option::is_some", "Result::is_ok"):
                    return self.isop(t[2][0], pos, "S", 2, depth + 1)
                if pn in ("Option::is_none", "Result::is_err"):
                    return self.B.NOT(self.isop(t[2][0], pos, "S", 2, depth + 1))
                if pn == "Not::not":
                    return self.B.NOT(self.boolf(t[2][0], pos, depth + 1))
            return self.termf(self.T.defterm(ib, d))
        # variant query
        if kind == "=":
            if pl[0] == "agg" and pl[1] == "adt" and pl[3]:
                v = SUCC.get(pl[3], pl[3])
                return T1 if v == q[1] else T0
            if pl[0] == "use":
                return self.isop(pl[1], pos, q[1], q[2], depth + 1)
            if pl[0] == "ref" and all(e == "*" for e in pl[2][1:]):
                return self.isop(["c", [pl[2][0]]], pos, q[1], q[2], depth + 1)
        else:
            t = pl
            if "ind" not in t[1] and t[2]:
                pn, rn = cname(t[1])
                if pn in ("Try::branch", "Option::as_ref", "Option::as_mut", "Result::as_ref", "Result::as_mut", "Option::cloned", "Option::copied", "Option::as_deref", "Result::ok", "Option::ok_or", "Option::ok_or_else", "Result::map_err",
                          "Option::map", "Result::map", "Option::as_deref_mut", "hint::must_use", "IntoIterator::into_iter") or (pn == "Clone::clone" and q[1] in ("S", "N")):
                    return self.isop(t[2][0], pos, q[1], q[2], depth + 1)
                if pn == "FromResidual::from_residual":
                    return T1 if q[1] == "N" else T0
        return self.isatom(self.T.defterm(ib, d), q[1], q[2])

    def isop(self, o, pos, v, n, depth):
        if o[0] in "cm" and all(e == "*" for e in o[1][1:]):
            l = o[1][0]
            ds = self.T.reaching(self.ib, l, *pos)
            if len(ds) == 1 and ds[0] != ("param",) and ds[0][2] == "=" and ds[0][3][0] == "ref":
                p = ds[0][3][2]
                if all(e == "*" for e in p[1:]):
                    return self.localf(p[0], (ds[0][0], ds[0][1]), depth + 1, ("is", v, n))
            return self.localf(l, pos, depth + 1, ("is", v, n))
        return self.isatom(self.T.op(self.ib, o, pos), v, n)

    def isf(self, pl, pos, v, n):
        """formula: place pl holds variant v"""
        v = SUCC.get(v, v)
        if all(e == "*" for e in pl[1:]):
            f = self.isop(["c", pl], pos, "S" if v == "N" else v, n, 0)
            return self.B.NOT(f) if v == "N" else f
        return self.isatom(self.T.place(self.ib, pl, pos), v, n)

    def isatom(self, t, v, n):
        neg = False
        if v == "N":
            v, neg = "S", True
        if t[0] == "agg" and t[3]:
            r = T1 if SUCC.get(t[3], t[3]) == v else T0
        elif t[0] == "phi" and all(u[0] == "agg" and u[3] and SUCC.get(u[3], u[3]) != v for u in t[1]):
            r = T0
        elif t[0] == "call" and v == "S" and t[1] in ("[T]::get", "[T]::get_mut", "VecDeque::get") and len(t[2]) == 2 and not (t[2][1][0] == "agg" or self.canon(t[2][1]).startswith(("#i", "Range"))):
            return self.neg(self.ltf(t[2][1], ("call", "Vec::len", (t[2][0],))), neg)
        elif t[0] == "call" and v == "S" and t[1] in ("[T]::first", "[T]::last", "[T]::first_mut", "[T]::last_mut", "Vec::pop") and len(t[2]) == 1:
            return self.neg(self.B.NOT(self.atom("true", f"empty({self.canon(t[2][0])})")), neg)
        elif t[0] == "call" and t[1] in ("Try::branch", "Result::ok", "Option::ok_or", "Option::ok_or_else", "Result::map_err", "Option::map", "Result::map") and v == "S":
            return self.neg(self.isatom(t[2][0], v, n), neg)
        else:
            r = self.atom("is", self.canon(t), v, n)
        return self.neg(r, neg)

    def neg(self, f, n):
        return self.B.NOT(f) if n else f

    def atom(self, kind, a, b=None, n=None):
        if self.fresh_read(a) or isinstance(b, str) and self.fresh_read(b):
            a += "′"
        if kind == "is" and n == 2 and b in ("S",):
            name = f"{a}?"
        elif kind == "is":
            name = f"{a} is {b}"
        elif kind == "eq":
            name = f"{a} == {b}"
        elif kind == "lt":
            name = f"{a} < {b}"
        else:
            name = a
        self.meta[name] = (kind, a, b, n)
        return self.B.var(name)

    def termf(self, t):
        """formula of a boolean term"""
        k = t[0]
        if k == "const":
            if isinstance(t[2], bool):
                return T1 if t[2] else T0
        if k == "un" and t[1] == "Not":
            return self.B.NOT(self.termf(t[2]))
        if k == "bin":
            op, a, b = t[1], t[2], t[3]
            if op in ("Eq", "Ne"):
                return self.neg(self.eqf(a, b), op == "Ne")
            if op == "Lt":
                return self.ltf(a, b)
            if op == "Gt":
                return self.ltf(b, a)
            if op == "Le":
                return self.B.NOT(self.ltf(b, a))
            if op == "Ge":
                return self.B.NOT(self.ltf(a, b))
            if op == "BitAnd":
                return self.B.AND(self.termf(a), self.termf(b))
            if op == "BitOr":
                return self.B.OR(self.termf(a), self.termf(b))
        if k == "call":
            n, a = t[1], t[2]
            last = n.split("::")[-1]
            if n in ("Option::is_some", "Result::is_ok"):
                return self.isatom(a[0], "S", 2)
            if n in ("Option::is_none", "Result::is_err"):
                return self.B.NOT(self.isatom(a[0], "S", 2))
            if last in ("eq", "ne") and len(a) == 2:
                return self.neg(self.eqf(a[0], a[1]), last == "ne")
            if last == "lt" and len(a) == 2:
                return self.ltf(a[0], a[1])
            if last == "gt" and len(a) == 2:
                return self.ltf(a[1], a[0])
            if last == "le" and len(a) == 2:
                return self.B.NOT(self.ltf(a[1], a[0]))
            if last == "ge" and len(a) == 2:
                return self.B.NOT(self.ltf(a[0], a[1]))
            if last == "is_empty" and len(a) == 1:
                return self.atom("true", f"empty({self.canon(a[0])})")
            if n in CONTAINS:
                return self.atom("is", self.get(a[0], a[1]), "S", 2)
            if last == "is" and "Any" in n:
                return self.atom("is", f"dc<{self.garg(t)}>({self.canon(a[0])})", "S", 2)
            if n == "Not::not":
                return self.B.NOT(self.termf(a[0]))
        return self.atom("true", self.canon(t))

    def peel(self, t):
        """a value unwrapped right after it was wrapped"""
        while t[0] == "clone" or t[0] == "call" and t[1] in PAYLOAD and t[2]:
            x = t[1] if t[0] == "clone" else t[2][0]
            if t[0] == "call":
                while x[0] == "clone":
                    x = x[1]
                if x[0] != "agg" or x[3] not in ("Some", "Ok") or not x[4]:
                    break
                x = x[4][0][1]
            t = x
        return t

    def eqf(self, a, b):
        a, b = self.peel(a), self.peel(b)
        for x, y in ((a, b), (b, a)):
            if y[0] == "const" and isinstance(y[2], bool):
                return self.neg(self.termf(x), not y[2])
            if y[0] == "const" and y[2] == 0 and x[0] == "call" and x[1].split("::")[-1] in ("len", "count"):
                return self.atom("true", f"empty({self.canon(x[2][0])})")
            if y[0] == "agg" and y[1] == "adt" and y[3] and not y[4]:
                return self.isatom(x, SUCC.get(y[3], y[3]), self.nvar(y[2]))
            if y[0] == "const" and y[2] == 0 and x[0] != "const" and y[1] in ("usize", "u8", "u16", "u32", "u64"):
                return self.B.NOT(self.ltf(y, x))        # what cannot be negative is 0 or more than 0
        ca, cb = self.canon(a), self.canon(b)
        ka, kb = a[0] == "const", b[0] == "const"
        if ka and not kb or (ka == kb and cb < ca):
            ca, cb = cb, ca
        return self.atom("eq", ca, cb)

    def nvar(self, adt):
        a = self.A.crate.adts.get(adt)
        if a and a.get("variants"):
            return len(a["variants"])
        return 2 if adt.split("::")[-1] in ("Option", "Result") else 0

    def ltf(self, a, b):
        if a[0] == "const" and a[2] == 0 and b[0] == "call" and b[1].split("::")[-1] in ("len", "count"):
            return self.B.NOT(self.atom("true", f"empty({self.canon(b[2][0])})"))
        # x < 1 on lengths
        if b[0] == "const" and b[2] == 1 and a[0] == "call" and a[1].split("::")[-1] == "len":
            return self.atom("true", f"empty({self.canon(a[2][0])})")
        if b[0] == "const" and isinstance(b[2], int) and not isinstance(b[2], bool) and a[0] != "const" and b[2] > 0:
            return self.B.NOT(self.atom("lt", str(b[2] - 1), self.canon(a)))    # x < n as not n-1 < x
        return self.atom("lt", self.canon(a), self.canon(b))

    # ---- canonical terms ----
    def garg(self, t):
        f = self.A.E.call_at(t[3]) if len(t) > 3 else None
        if not f:
            return ""
        ga = [g for g in f.get("ga", []) if "Global" not in g and not g.startswith("(dyn") and not g.startswith("dyn")]
        return short_ty(ga[-1].lstrip("&")) if ga else ""

    def get(self, m, k):
        km = self.canon(k)
        if "#i" == km or km.startswith("#i"):
            return f"each({self.canon(m)})"
        return f"{self.canon(m)}[{km}]"

    def canon(self, t):
        k = id(t)
        r = self.tmemo.get(k)
        if r is None:
            self.tmemo[k] = ("…", t)
            r = (dig(self._canon(t)), t)
            self.tmemo[k] = r
        return r[0]

    def _canon(self, t):
        c = self.canon
        k = t[0]
        if k == "param":
            return f"p{t[1]}"
        if k == "const":
            v = t[2]
            if v is None:
                return f"<{short_ty(str(t[1]))}>"
            if isinstance(v, str):
                return json.dumps(v, ensure_ascii=False)
            if t[1] == "char" and isinstance(v, int):
                return json.dumps(chr(v), ensure_ascii=False)
            return str(v)
        if k == "field":
            b = t[1]
            adt, name = t[2] or "", t[3]
            if b[0] == "down" and b[2] in ("Err", "Break"):
                return self.errof(b[1])
            if adt.startswith(("std::option", "std::result", "core::option", "core::result", "std::ops::ControlFlow", "core::ops")) or b[0] == "down" and b[2] in ("OkSome", "Some", "Ok", "Continue"):
                return c(b)
            if b[0] == "down" and b[2] in ("Err", "Break"):
                return self.errof(b[1])
            cb = c(b)
            if cb.startswith("each(enumerate("):
                return "#i" if name == "0" else "each(" + cb[len("each(enumerate("):-2] + ")"
            return f"{cb}.{name}"
        if k == "down":
            if t[2] in ("OkSome", "Some", "Ok", "Continue"):
                if t[1][0] == "phi" and not (t[2] == "Some" and kept_best(t[1])):
                    us = [u for u in t[1][1] if not (u[0] == "agg" and u[3] in ("None", "Err") or u[0] == "call" and u[1] == "FromResidual::from_residual")]
                    if us and len(us) < len(t[1][1]):
                        return c(us[0]) if len(us) == 1 else self._canon(("phi", us) + tuple(t[1][2:]))
                return c(t[1])
            if t[2] in ("Err", "Break"):
                return self.errof(t[1])
            return f"{c(t[1])}@{t[2]}"
        if k in ("clone", "outer"):
            return c(t[1] if k == "clone" else t[2])
        if k == "cast":
            if t[1] in INTS:
                s = c(t[2])
                return s
            return f"({c(t[2])} as {short_ty(t[1])})"
        if k == "elem":
            return self.each(c(t[1]))
        if k == "idx":
            return self.get(t[1], t[2])
        if k == "un" and t[1] == "Not" or k == "bin" and t[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") or k == "call" and (t[1] in ("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err", "Not::not") or t[1] in CONTAINS or t[1].split("::")[-1] in ("is_empty", "eq", "ne", "lt", "le", "gt", "ge")):
            if not (k == "un" and self.intnot(t[2])):
                f = self.termf(t)
                if f < 2:
                    return str(bool(f))
                v, lo, hi = self.B.nodes[f]
                if (lo, hi) == (0, 1):
                    return f"[{self.B.names[v]}]"
                if (lo, hi) == (1, 0):
                    return f"[not {self.B.names[v]}]"
        if k == "call":
            return self.ccall(t)
        if k == "bin":
            a, b = c(t[2]), c(t[3])
            op = t[1].replace("Unchecked", "")
            if op == "BitOr" and "0" in (a, b):
                return a if b == "0" else b
            if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor", "Eq", "Ne") and b < a:
                a, b = b, a
            if op in ("Gt", "Ge"):
                a, b, op = b, a, {"Gt": "Lt", "Ge": "Le"}[op]
            return f"({a} {op} {b})"
        if k == "un":
            return f"{t[1]}({c(t[2])})"
        if k == "disc":
            return f"disc({c(t[1])})"
        if k == "overflow":
            return f"ovf({c(t[1])})"
        if k == "agg":
            if t[2].split("::")[-1] in ("Option", "Result") and t[3] in ("Some", "Ok"):
                return c(t[4][0][1]) if t[4] else "()"
            if t[3] == "Err":
                e = c(t[4][0][1])
                if "err(" in e and "StoryError::" not in e and "Error::" not in e:
                    return "err(" + e + ")"
                return e if e.startswith(("err(", "Err(")) else f"Err({self.errkind(t[4][0][1])})"
            if t[3] == "None":
                return "None"
            if t[1] == "array":
                return "[" + ", ".join(c(v) for _, v in t[4]) + "]"
            nm = short_ty(t[2]) if t[2] else t[1]
            return f"{nm}{'::' + t[3] if t[3] and t[3] != nm else ''}{{{', '.join(n + ':' + c(v) for n, v in t[4])}}}" if t[4] or t[3] or nm != "tuple" else "()"
        if k == "phi":
            us = []
            rec = False
            for u in t[1]:
                if u[0] == "rec":
                    rec = True
                    continue
                us.append(c(u))
            us = sorted(set(us))
            # a counter: phi(0, +1)
            if any("…" in x and "Add" in x and " 1)" in x or "Add …" in x for x in us) or any(x.startswith("(1 Add") or x.endswith("Add 1)") for x in us):
                return "#i"
            return us[0] if len(us) == 1 else "φ{" + "|".join(us) + "}"
        if k == "closure":
            cb = self.A.crate.bodies.get(t[1])
            if cb is None:
                return "λ"
            s = self.C.closure(cb)
            return f"λ({s})"
        if k == "fn":
            return f"fn:{t[1]}"
        if k == "static":
            return f"static:{short(t[1])}"
        if k == "upvar":
            return f"^{t[2]}"
        if k == "rec":
            return "…"
        return k

    def errof(self, t):
        """the error of a failed value: its kind when it is made here, else err(source)"""
        while t[0] == "call" and t[1] in ("Try::branch", "Result::map_err") and t[2] and not (t[1] == "Result::map_err"):
            t = t[2][0]
        us = [t] if t[0] != "phi" else [u for u in t[1] if not (u[0] == "agg" and u[3] in ("Ok", "Some", "Continue"))]
        ks = set()
        for u in us:
            if u[0] == "agg" and u[3] == "Err":
                k = self._canon(u)
            elif u[0] == "call" and u[1] == "FromResidual::from_residual" and u[2]:
                k = self.canon(u[2][0])
            elif u[0] == "rec":
                continue
            elif u[0] == "call" and u[1] == "Option::ok_or" and len(u[2]) == 2:
                k = f"Err({self.errkind(u[2][1])})"
            elif u[0] == "call" and u[1] in ("Option::ok_or_else", "Result::map_err") and len(u[2]) == 2:
                m = re.search(r"return:\w+::(\w+)\{", self.canon(u[2][1]))
                k = f"Err({m.group(1)})" if m else "err(" + self.canon(u[2][0]) + ")"
            else:
                k = "err(" + self.canon(u) + ")"
            ks.add(k)
        ks = sorted(ks)
        if len(ks) == 1:
            return ks[0]
        e = [k for k in ks if k.startswith("Err(")]
        if e and len(e) == len(ks):
            return e[0] if len(e) == 1 else "Err(" + "|".join(x[4:-1] for x in e) + ")"
        return "err(" + "|".join(ks) + ")"

    def intnot(self, t):
        return t[0] == "const" and not isinstance(t[2], bool) or t[0] == "cast"

    def each(self, s):
        if s.startswith("Range") or s.startswith("RangeInclusive") or s.startswith("#i"):
            return "#i"
        m = re.fullmatch(r"(values|keys)\((.*)\)", s)
        if m:
            return f"each({m.group(2)}).{int(m.group(1) == 'values')}"
        return f"each({s})"

    def errkind(self, t):
        ks = [x[3] for x in walk(t) if x[0] == "agg" and x[3] and x[2].split("::")[-1] not in ("Option", "Result", "Arguments")]
        if ks:
            return ks[0]
        cs = [x[1] for x in walk(t) if x[0] == "call" and not x[1].startswith(("fmt", "Argument", "Arguments", "String", "hint", "format"))]
        return cs[0] if cs else "e"

    def ccall(self, t):
        c = self.canon
        n, a = t[1], t[2]
        last = n.split("::")[-1]
        if n in PAYLOAD and a:
            return c(a[0])
        if n in ITER_ID or last in ("into_iter", "iter", "iter_mut") and len(a) == 1:
            return c(a[0])
        if last in ("next", "next_back") and len(a) == 1 and ("Iterator" in n or n.startswith("<")):
            return self.each(c(a[0]))
        if last == "with_capacity" and len(a) == 1:
            return n[:-len("with_capacity")] + "new()"
        if n in ("Option::get_or_insert_with", "Option::get_or_insert", "Option::get_or_insert_default"):
            return c(a[0])
        if n in ("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default") and a[0][0] == "call" and a[0][1].endswith("::entry"):
            return self.get(*a[0][2])
        if n == "Iterator::flatten" and self.flat_option(t):
            v = c(a[0])
            m = re.fullmatch(r"φ\{None\|([^|]*)\}", v)
            return m.group(1) if m else v
        if last in ("values", "values_mut", "keys", "into_values", "into_keys") and len(a) == 1 and n.split("::")[0] in ("HashMap", "BTreeMap", "Map"):
            return f"{last.removeprefix('into_').removesuffix('_mut')}({c(a[0])})"
        if last in ("enumerate",):
            return f"enumerate({c(a[0])})"
        if n in GETS and len(a) == 2:
            return self.get(a[0], a[1])
        if n in CONTAINS:
            return self.get(a[0], a[1]) + "?"
        if last in ("downcast", "downcast_ref") and a:
            return f"dc<{self.garg(t)}>({c(a[0])})"
        if last == "unwrap_or" and len(a) == 2:
            return "φ{" + "|".join(sorted({c(a[0]), self.dflt(c(a[1]))})) + "}"
        if last == "unwrap_or_default":
            return "φ{" + "|".join(sorted({c(a[0]), "default"})) + "}"
        if last == "is_empty":
            return f"empty({c(a[0])})"
        if n in ("fmt::format", "format::format", "fmt::format::format_inner", "alloc::fmt::format"):
            return f"fmt({c(a[0])})"
        if n in ("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex"):
            return c(a[0])
        if n in ("Arguments::new", "Arguments::new_const", "Arguments::new_v1", "Arguments::from_str", "Arguments::new_v1_formatted"):
            return ",".join(c(x) for x in a)
        f = self.A.E.call_at(t[3]) if len(t) > 3 else None
        g = ""
        if f and (last in ("parse", "get_value", "collect", "downcast", "try_into", "try_from", "sum", "default", "from_str")):
            g = self.garg(t)
            if last == "collect":
                g = ""
            g = f"<{g}>" if g else ""
        if n == "[T]::len":
            n = "Vec::len"
        if n == "<indirect>":
            return "call*(" + ",".join(c(x) for x in a) + ")"
        return f"{n}{g}({','.join(c(x) for x in a)})"

    # ---- effects ----
    def cases(self, o, pos, depth=0):
        """[(canonical value, formula)] of an operand, one per definition that may reach"""
        ib = self.ib
        if o[0] in "cm" and len(o[1]) == 1 and ib.local_ty(o[1][0]) == "bool":
            return [(v, g) for v, g in (("True", self.boolf(o, pos)), ("False", self.nboolf(o, pos))) if g != T0]
        if o[0] in "cm" and depth < 24 and len(o[1]) == 1:
            l = o[1][0]
            ds = self.T.reaching(ib, l, *pos)
            if len(ds) == 1 and ds[0] != ("param",) and ds[0][2] == "=":
                pl = ds[0][3]
                if pl[0] == "use" and pl[1][0] in "cm" and len(pl[1][1]) == 1:
                    return self.cases(pl[1], (ds[0][0], ds[0][1]), depth + 1)
                if pl[0] == "cast" and pl[1].startswith(("PointerCoercion", "Transmute")) and pl[2][0] in "cm":
                    return self.cases(pl[2], (ds[0][0], ds[0][1]), depth + 1)
                if pl[0] == "ref" and all(e == "*" for e in pl[2][1:]):
                    return self.cases(["c", [pl[2][0]]], (ds[0][0], ds[0][1]), depth + 1)
                if pl[0] == "agg" and pl[1] == "adt" and pl[3] in ("Ok", "Some") and len(pl[5]) == 1:
                    return self.cases(pl[5][0], (ds[0][0], ds[0][1]), depth + 1)
            if len(ds) == 1 and ds[0] != ("param",) and ds[0][2] == "call" and "ind" not in ds[0][3][1] and ds[0][3][2]:
                pl = ds[0][3]
                if set(cname(pl[1])) & (TRANSPARENT | VALUE_ID) and not pl[1].get("local") or cname(pl[1])[0] == "Clone::clone" and cname(pl[1])[1].startswith("<Rc as"):
                    return self.cases(pl[2][0], (ds[0][0], len(ib.blocks[ds[0][0]]["s"])), depth + 1)
            if len(ds) == 1 and ds[0] != ("param",) and ds[0][2] == "call" and self.is_or(ds[0][3]):
                return self.orcases(ds[0][3], (ds[0][0], len(ib.blocks[ds[0][0]]["s"])), depth + 1)
            if len(ds) > 1 and all(d == ("param",) or self.order.get(d[0], 0) < self.order.get(pos[0], 0) for d in ds):
                out = []
                for d in ds:
                    if d == ("param",):
                        out.append((self.canon(self.T.param(ib, l)), T1))
                        continue
                    blk, i, kind, pl = d
                    f = self.reachf(d, ds, pos[0])
                    if f == T0:
                        continue
                    p2 = (blk, i if i != "T" else len(ib.blocks[blk]["s"]))
                    if kind == "=" and pl[0] == "use":
                        sub = self.cases(pl[1], p2, depth + 1)
                    elif kind == "=" and pl[0] == "ref" and all(e == "*" for e in pl[2][1:]):
                        sub = self.cases(["c", [pl[2][0]]], p2, depth + 1)
                    elif kind == "=" and pl[0] == "cast" and pl[1].startswith(("PointerCoercion", "Transmute")):
                        sub = self.cases(pl[2], p2, depth + 1)
                    elif kind == "call" and "ind" not in pl[1] and pl[2] and set(cname(pl[1])) & (TRANSPARENT | VALUE_ID) and not pl[1].get("local"):
                        sub = self.cases(pl[2][0], p2, depth + 1)
                    elif kind == "call" and self.is_or(pl):
                        sub = self.orcases(pl, p2, depth + 1)
                    elif kind == "=" and pl[0] == "agg" and pl[1] == "adt" and pl[3] in ("Ok", "Some") and len(pl[5]) == 1:
                        sub = self.cases(pl[5][0], p2, depth + 1)
                    elif kind == "call" and "ind" not in pl[1] and cname(pl[1])[0] == "FromResidual::from_residual":
                        if ib.local_ty(l).startswith("std::option::Option"):
                            sub = [("None", T1)]
                        else:
                            v = self.canon(self.T.op(ib, pl[2][0], p2)) if pl[2] else ""
                            if not v.startswith("Err("):
                                continue
                            sub = [(v, T1)]
                    else:
                        sub = [(self.canon(self.T.defterm(ib, d)), T1)]
                    for v, g in sub:
                        out.append((v, self.B.AND(f, g)))
                return out
        return [(self.canon(self.T.op(ib, o, pos)), T1)]

    def aged(self, o, pos):
        """cases, marked ° when the value was read before a later write to its source"""
        cs = self.cases(o, pos)
        if not (o[0] in "cm" and len(o[1]) == 1 and self.ib.local_ty(o[1][0]) == "bool") and any("." in v for v, _ in cs) and self.old(o, pos):
            cs = [(v + "°" if "." in v else v, g) for v, g in cs]
        return cs

    def is_or(self, pl):
        return "ind" not in pl[1] and cname(pl[1])[0] in ("Option::unwrap_or", "Result::unwrap_or", "Option::unwrap_or_default", "Result::unwrap_or_default") and len(pl[2]) >= 1

    def orcases(self, pl, pos, depth):
        f = self.isop(pl[2][0], pos, "S", 2, depth)
        out = [(self.canon(self.T.op(self.ib, pl[2][0], pos)), f)]
        if len(pl[2]) > 1:
            out += [(self.dflt(v), self.B.AND(g, self.B.NOT(f))) for v, g in self.cases(pl[2][1], pos, depth)]
        else:
            out.append(("default", self.B.NOT(f)))
        return [(v, g) for v, g in out if g != T0]

    def dflt(self, v):
        return "default" if v in ("0", "False", '""', "0.0", "0.0", '"0.0"', "None") or v.startswith("Default::default") or re.fullmatch(r"\w+::new\(\)", v) else v

    def reachf(self, d, ds, at):
        """condition that definition d is the one that reaches block `at`"""
        if self.local:
            return self.cond(d[0])
        dblk = {x[0] for x in ds if x != ("param",)}
        tv = {d[0]: self.cond(d[0])}
        anc = self.ancestors(at)
        for x in self.rpo[self.order[d[0]] + 1:self.order[at] + 1]:
            if x not in anc:
                continue
            f = T0
            for p in self.fpreds[x]:
                if p in tv:
                    f = self.B.OR(f, self.B.AND(tv[p], self.edge(p, x)))
            if x == at:
                return f
            if x in dblk or f == T0:
                continue
            tv[x] = f
        return tv.get(at, T0)

    def events(self):
        ib, B = self.ib, self.B
        out = {}

        self.sites = {}
        self.roots = {}

        def add(target, val, f):
            if f == T0:
                return
            self.sites.setdefault(target, {}).setdefault(self.cur, set()).add(val)
            d = out.setdefault(target, {})
            d[val] = B.OR(d.get(val, T0), f)
        for b in self.rpo:
            bl = ib.blocks[b]
            if b not in self.canret:
                continue
            c = self.cond(b)
            self.cur = b
            for i, s in enumerate(bl["s"]):
                if s[0] == "=" and len(s[1]) > 1 and ("*" in s[1][1:] or self.named(s[1])):
                    t = self.T.place(ib, s[1], (b, i))
                    tg = self.target(t, s[1], (b, i))
                    if tg is None:
                        continue
                    rv = s[2]
                    ent = self.entryset(t, b, ib.local_ty(s[1][0]))
                    if ent:
                        v = self.canon(self.T.op(ib, rv[1], (b, i)) if rv[0] == "use" else self.T.rvalue(ib, rv, (b, i)))
                        add(ent[0], f"{ent[1]}, {v.replace(ent[2], ent[3])}", c)
                    elif rv[0] == "use":
                        for v, g in self.aged(rv[1], (b, i)):
                            add("set " + tg, v, B.AND(c, g))
                    else:
                        v = self.canon(self.T.rvalue(ib, rv, (b, i)))
                        if rv[0] in ("bin", "un", "cast", "agg") and "." in v and self.stale(self.dloads((b, i, "=", rv), 0), (b, i)):
                            v += "°"
                        add("set " + tg, v, c)
            t = bl["t"]
            if t[0] == "call":
                self.callevent(b, t, c, add)
        self.kinds = []
        for h in sorted(self.loops, key=lambda x: self.order[x]):
            if h not in self.canret:
                continue
            p = next((p for p, (ex, body) in self.iterexit.items() if body is self.loops[h]), None)
            k = "free"
            if p is not None and ib.blocks[p]["t"][0] == "switch":
                k = "while"
                tt = self.T.op(ib, ib.blocks[p]["t"][1], (p, len(ib.blocks[p]["s"])))
                if self.is_iter_test(p):
                    if tt[0] == "disc":
                        k = "iter"
                        x = tt[1]
                        while x[0] == "call" and x[1].split("::")[-1] in ("next", "next_back", "into_iter", "iter") and x[2]:
                            x = x[2][0]
                    else:
                        k = "count"
                        x = next((y for y in tt[2:4] if "#i" not in self.canon(y)), tt[3])
                    if x[0] == "agg" and x[2].endswith("ops::Range") and x[4][0][1][0] == "const" and x[4][0][1][2] == 0:
                        x = x[4][1][1]
                    if x[0] == "call" and x[1].split("::")[-1] == "len" and x[2]:
                        x = x[2][0]
                    if x[0] == "call" and x[1].split("::")[-1] == "enumerate":
                        x = x[2][0]
                        while x[0] == "call" and x[1].split("::")[-1] in ("into_iter", "iter") and x[2]:
                            x = x[2][0]
                    src = self.canon(x)
                    self.cur = h
                    m = re.fullmatch(r"(values|keys)\((.*)\)", src)
                    add("loop", m.group(2) if m else src, B.AND(self.cond(h), self.inside(p)))
            self.kinds.append(k)
        for b in ib.exits:
            c = self.cond(b)
            self.cur = b
            ty = ib.local_ty(0)
            if ty == "()":
                continue
            pos = (b, len(ib.blocks[b]["s"]))
            for v, g in self.aged(["c", [0]], pos):
                if v in ("()",) or v.startswith("err("):
                    continue
                if ty.startswith("std::result::Result<") and not v.startswith("Err("):
                    if ty.startswith("std::result::Result<(), "):
                        continue        # an effect handed on
                    g = B.AND(g, self.isop(["c", [0]], pos, "S", 2, 0))
                add("return", v, B.AND(c, g))
        self.picks(out)
        return out

    def picks(self, out):
        """for each value chosen among several definitions that an effect or a condition names: when each is chosen"""
        ib, B = self.ib, self.B
        text = " ".join(full(v) for d in out.values() for v in d) + " ".join(full(n) for n in self.meta)
        if "φ{" not in text:
            return
        seen = set()
        for l, pos in self.uses():
            ds = self.T.reaching(ib, l, *pos)
            if len(ds) < 2 or ib.local_ty(l) in ("bool", "()"):
                continue
            k = (l, tuple(sorted((d[0], str(d[1])) for d in ds if d != ("param",))))
            if k in seen:
                continue
            seen.add(k)
            ds = [d for d in ds if d == ("param",) or d[0] in self.canret]
            key = self.canon(self.T.local(ib, l, pos))
            if not key.startswith("φ{") or full(key) not in text:
                continue
            for d in ds:
                if d == ("param",):
                    continue
                v = self.canon(self.T.defterm(ib, d))
                c = self.cond(d[0])
                for e in ds:
                    if e is not d and e != ("param",) and not (e[0] in self.inloop and d[0] not in self.inloop) and (e[0] == d[0] and str(e[1]) > str(d[1]) or e[0] != d[0] and self.order.get(e[0], 0) > self.order.get(d[0], 0) and d[0] in self.ancestors(e[0])):
                        c = B.AND(c, B.NOT(self.cond(e[0])))
                if c != T0:
                    o = out.setdefault("pick " + key, {})
                    o[v] = B.OR(o.get(v, T0), c)
        self.flags(out)

    def flags(self, out):
        """yes/no values decided on the way that fill a field or are handed to a function: when they are yes"""
        ib, B = self.ib, self.B

        def add(key, o, b, i):
            if o[0] not in "cm" or len(o[1]) != 1 or ib.local_ty(o[1][0]) != "bool" or not re.match(r"φ\{False\|True\}$|\[", self.canon(self.T.op(ib, o, (b, i)))):
                return
            f = self.boolf(o, (b, i))
            if f < 2 or any("φ{False|True}" in n for n in B.support(f)):
                # decided in a loop: when each is assigned
                l = o[1][0]
                for _ in range(6):
                    ds = [d for d in self.T.reaching(ib, l, b, i) if d == ("param",) or d[0] in self.canret]
                    if len(ds) == 1 and ds[0] != ("param",) and ds[0][2] == "=" and ds[0][3][0] == "use" and ds[0][3][1][0] in "cm" and len(ds[0][3][1][1]) == 1:
                        b2, i = ds[0][0], ds[0][1]
                        l, b = ds[0][3][1][1][0], b2
                        continue
                    break
                d = {}
                if len(ds) > 1 and all(e != ("param",) and e[2] == "=" and e[3][0] == "use" and e[3][1][0] == "k" and isinstance(e[3][1][1].get("v"), bool) for e in ds):
                    for e in ds:
                        v = str(e[3][1][1]["v"])
                        d[v] = B.OR(d.get(v, T0), self.cond(e[0]))
                    o = out.setdefault("pick " + key + "°", {})
                    for v, g in d.items():
                        if g != T0:
                            o[v] = B.OR(o.get(v, T0), g)
                return
            c = self.cond(b)
            d = out.setdefault("pick " + key, {})
            for v, g in (("True", B.AND(c, f)), ("False", B.AND(c, B.NOT(f)))):
                if g != T0:
                    d[v] = B.OR(d.get(v, T0), g)

        for b in sorted(self.canret):
            bl = ib.blocks[b]
            for i, st in enumerate(bl["s"]):
                if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "adt":
                    for n, o in zip(st[2][4], st[2][5]):
                        add(f"{short_ty(st[2][2])}.{n}", o, b, i)

    def uses(self):
        """(local, position) of every variable read"""
        ib = self.ib
        many = {l for l, ds in ib.defs.items() if len(ds) + (0 < l <= ib.nargs) > 1}
        for b in sorted(self.canret):
            bl = ib.blocks[b]
            for i, st in enumerate(bl["s"]):
                if st[0] != "=":
                    continue
                rv = st[2]
                ops = [x[1][0] for x in rv[1:] if isinstance(x, list) and len(x) > 1 and x[0] in ("c", "m") and isinstance(x[1], list)]
                if rv[0] == "agg":
                    ops = [y[1][0] for y in rv[5] if y[0] in "cm"]
                elif rv[0] == "ref":
                    ops = [rv[2][0]]
                elif rv[0] == "disc":
                    ops = [rv[1][0]]
                for l in ops:
                    if l in many:
                        yield l, (b, i)
            t = bl["t"]
            if t[0] == "call":
                for a in t[2]:
                    if a[0] in "cm" and a[1][0] in many:
                        yield a[1][0], (b, len(bl["s"]))

    def named(self, pl):
        return any(e != "*" and e[0] == "f" and e[3] and not e[3].startswith(("std::", "core::", "alloc::", "closure:")) and not e[2].isdigit() for e in pl[1:])

    def rw(self, b):
        """fields (written, read) by what block b does"""
        ib, A = self.ib, self.A
        W = {f[-1] for (i, r, f, what, ln) in A.E.writes_at(ib).get(b, ()) if f}
        R = set()
        t = ib.blocks[b]["t"]
        if t[0] == "call" and "ind" not in t[1]:
            for x in A.cg.targets(t[1]):
                R |= self.C.reads(x)
            for a in self.T.args(ib, b):
                for x in walk(a):
                    if x[0] == "field" and x[2] and not x[2].startswith(("std::", "core::")):
                        R.add(f"{x[2].split('::')[-1]}.{x[3]}")
        return W, R | W

    def words(self):
        """literals, variants, fields and functions of the crate that the body names"""
        out = set()
        ib = self.ib

        def opd(o):
            if o[0] == "k":
                v = o[1].get("v")
                fn = (o[1].get("fn") or {}).get("p", "")
                if fn and re.match(r"[A-Z]", fn.rsplit("::", 1)[-1]):
                    if not fn.startswith(("std::", "core::", "alloc::")):
                        out.add(fn.rsplit("::", 1)[-1])
                elif fn and self.A.cg.targets(o[1]["fn"]):
                    ts = self.A.cg.targets(o[1]["fn"])
                    if len(ts) == 1 and self.C.small_pure(next(iter(ts))):
                        out.update(self.C.words_of(next(iter(ts))))      # named or spliced in: the same words
                        return
                    pn, rn = cname(o[1]["fn"])
                    out.add("fn " + (pn if o[1]["fn"].get("rk") == "virtual" else rn))
                if isinstance(v, str):
                    tm = decode_template(v) if v.endswith("\x00") and len(v) > 1 else None
                    out.update(json.dumps(x, ensure_ascii=False) for x in ([v] if tm is None else tm) if x)
                elif isinstance(v, int) and not isinstance(v, bool) and v not in (0, 1):
                    out.add(json.dumps(chr(v), ensure_ascii=False) if o[1].get("ty") == "char" else str(v))
            else:
                place(o[1])

        def place(p):
            for e in p[1:]:
                if e != "*" and e[0] == "f" and e[3] and not e[3].startswith(("std::", "core::", "closure:", "alloc::")) and not e[2].isdigit():
                    out.add("." + e[2])
        for b in ib.reach:
            if b not in self.canret:
                continue
            bl = ib.blocks[b]
            for st in bl["s"]:
                if st[0] != "=":
                    continue
                place(st[1])
                rv = st[2]
                if rv[0] in ("use", "repeat", "un", "cast", "bin"):
                    for x in rv[1:]:
                        if isinstance(x, list) and len(x) > 1 and x[0] in ("c", "m", "k"):
                            opd(x)
                elif rv[0] == "ref":
                    place(rv[2])
                elif rv[0] == "disc":
                    place(rv[1])
                elif rv[0] == "agg":
                    for y in rv[5]:
                        opd(y)
                if rv[0] == "agg" and rv[1] == "adt" and rv[3] and not str(rv[2]).startswith(("std::", "core::", "alloc::")):
                    out.add(rv[3])
            t = bl["t"]
            if t[0] == "call":
                for a in t[2]:
                    opd(a)
                ts = () if "ind" in t[1] else self.A.cg.targets(t[1])
                if ts and not (len(ts) == 1 and self.C.small_pure(next(iter(ts)))):
                    pn, rn = cname(t[1])
                    out.add("fn " + (pn if t[1].get("rk") == "virtual" else rn))
            elif t[0] == "switch":
                opd(t[1])
        return out

    def orders(self):
        """(before, repeat): pairs of conflicting effects of which the second never precedes the first;
        effects that can follow themselves without a loop"""
        ts = {t: set(bs) for t, bs in self.sites.items() if not t.startswith(("local", "return", "loop")) and len(bs) <= 24}
        if len(ts) > 60:
            return [], []
        desc = {}

        def reach(b):
            if b not in desc:
                seen, st = set(), [b]
                while st:
                    x = st.pop()
                    for y in self.fs[x]:
                        if y not in seen:
                            seen.add(y)
                            st.append(y)
                desc[b] = seen
            return desc[b]
        rw = {}
        for t, bs in ts.items():
            w, r = set(), set()
            for b in bs:
                a, c = self.rw(b)
                w |= a
                r |= c
            rw[t] = (w, r)
        feas = {}

        def feasible(x, y):
            if self.local:
                return True
            k = (x, y)
            if k not in feas:
                try:
                    feas[k] = self.B.AND(self.cond(x), self.cond(y)) != 0
                except OverflowError:
                    feas[k] = True
            return feas[k]

        class Fol:
            def __init__(s, bs):
                s.bs = bs
                s.reach = reach

            def __and__(s, cs):
                return any(y in reach(x) and feasible(x, y) for x in s.bs for y in cs)
        fol = {t: Fol(bs) for t, bs in ts.items()}
        self.fol = fol
        self.follow = lambda bs, cs: bool(Fol(bs) & cs)
        before, rep = [], []
        for t, bs in ts.items():
            if fol[t] & bs:
                rep.append(t)
            for u, cs in ts.items():
                if t == u:
                    continue
                if fol[t] & cs and not (fol[u] & bs):
                    if rw[t][0] & rw[u][1] or rw[u][0] & rw[t][1] or t.startswith("io") and u.startswith("io"):
                        before.append([t, u])
        return sorted(before), sorted(rep)

    def seq(self):
        """[target, u, v]: of two values appended to the same thing, u always comes first"""
        out = set()
        if not hasattr(self, "fol"):
            return []
        for t, bs in self.sites.items():
            if not APPEND.match(t) or len(bs) > 48:
                continue
            by = {}
            for b, vs in bs.items():
                r = "io" if t.startswith("io") else self.roots.get(b)
                if r is not None and len(vs) == 1:
                    by.setdefault(r, {}).setdefault(next(iter(vs)), set()).add(b)
            for vals in by.values():
                ks = sorted(vals)
                for u in ks:
                    for v in ks:
                        if u != v and self.follow(vals[u], vals[v]) and not self.follow(vals[v], vals[u]):
                            out.add((t, u, v))
        return sorted(map(list, out))

    def late(self, u, t):
        """effect t, when it comes after u, meets what u wrote (and not a value taken out before)"""
        ib = self.ib
        for y in self.sites[u]:
            Wu, Ru = self.rw(y)
            after = self.fol[u].reach(y)
            for x in self.sites[t]:
                if x not in after:
                    continue
                W = {f[-1] for (i, r, f, what, ln) in self.A.E.writes_at(ib).get(x, ()) if f}
                if W & Ru or u.startswith("io"):
                    return True
                tt = ib.blocks[x]["t"]
                if tt[0] != "call" or "ind" in tt[1]:
                    return True
                R = set()
                for c in self.A.cg.targets(tt[1]):
                    R |= self.C.reads(c)
                if R & Wu:
                    return True
                names = {w.split(".")[-1] for w in Wu}
                pos = (x, len(ib.blocks[x]["s"]))
                for a in tt[2]:
                    for (b, i, fs) in self.loads(a, pos):
                        if fs & names and (b in after or b == x):
                            return True
                    if a[0] in "cm" and ib.local_ty(a[1][0]).startswith(("&", "std::cell::Ref")) and not self.owned(a[1][0], pos):
                        for z in walk(self.T.op(ib, a, pos)):
                            if z[0] == "field" and f"{(z[2] or '').split('::')[-1]}.{z[3]}" in Wu:
                                return True
        return False

    def owned(self, l, pos, depth=0):
        """a reference into a variable of the function itself"""
        ib = self.ib
        ds = self.T.reaching(ib, l, *pos)
        if depth > 20 or not ds:
            return False
        k = ("own", l, tuple((d[0], d[1]) if d != ("param",) else d for d in ds))
        if k not in self.kmemo:
            self.kmemo[k] = False
            self.kmemo[k] = self._owned(ds, depth)
        return self.kmemo[k]

    def _owned(self, ds, depth):
        ib = self.ib
        for d in ds:
            if d == ("param",):
                return False
            b, i, kind, rv = d
            if kind == "=":
                p = rv[2] if rv[0] == "ref" else rv[1][1] if rv[0] in ("use",) and rv[1][0] in "cm" else None
                if p is None:
                    return False
                if "*" not in p[1:] and not re.search(r"&|Iter|Ref<|RefMut<|Peekable|IntoIter|Rc<", ib.local_ty(p[0])):
                    continue
                if not self.owned(p[0], (b, i), depth + 1):
                    return False
            else:
                if not rv[2] or rv[2][0][0] not in "cm" or not self.owned(rv[2][0][1][0], (b, len(ib.blocks[b]["s"])), depth + 1):
                    return False
        return True

    def captured(self, cl, k):
        """the place a closure captured by reference"""
        ib = self.ib
        for b in ib.reach:
            for i, st in enumerate(ib.blocks[b]["s"]):
                if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "closure" and (st[2][2] == cl or st[2][2].endswith(cl)) and k < len(st[2][5]):
                    o = st[2][5][k]
                    if o[0] in "cm" and len(o[1]) == 1:
                        ds = self.T.reaching(ib, o[1][0], b, i)
                        if len(ds) == 1 and ds[0] != ("param",) and ds[0][2] == "=" and ds[0][3][0] == "ref":
                            return list(ds[0][3][2])
        return None

    def chase(self, pl, pos):
        """a place through the references it goes by"""
        for _ in range(10):
            k = next((i for i, e in enumerate(pl) if i and e != "*" and e[0] == "f" and e[3].startswith("closure:")), None)
            if k is not None:
                p2 = self.captured(pl[k][3][8:], pl[k][1])
                if p2 is None:
                    return pl
                pl = p2 + pl[k + 1:]
                continue
            if len(pl) < 2 or pl[1] != "*":
                return pl
            ds = self.T.reaching(self.ib, pl[0], *pos)
            if len(ds) != 1 or ds[0] == ("param",) or ds[0][2] != "=":
                return pl
            rv = ds[0][3]
            pos = (ds[0][0], ds[0][1])
            if rv[0] == "ref":
                pl = list(rv[2]) + pl[2:]
            elif rv[0] == "use" and rv[1][0] in "cm":
                pl = list(rv[1][1]) + pl[1:]
            else:
                return pl
        return pl

    def target(self, t, pl, pos=None):
        x = t
        while x[0] in ("down", "elem", "clone", "outer"):
            x = x[1] if x[0] != "outer" else x[2]
        if pos is not None and not self.named(pl):
            pl = self.chase(list(pl), pos)
            if len(pl) == 1:
                return None     # a variable of the function itself
        for e in reversed(pl[1:]):
            if e != "*" and e[0] == "f" and e[3] and not e[3].startswith(("std::", "core::", "closure:")):
                return f"{short_ty(e[3].split('::')[-1])}.{e[2]}"
            if e != "*" and e[0] == "i":
                break
        if x[0] in ("const", "phi", "agg", "bin", "rec") and all(r[0] in ("fresh", "?") for r, _ in self.A.E.apath(t, self.ib)):
            return None
        r = self.canon(t)
        return r if len(r) < 80 else r[:60]

    def callevent(self, b, t, c, add):
        f = t[1]
        ib, B = self.ib, self.B
        pos = (b, len(ib.blocks[b]["s"]))
        if t[2] and t[2][0][0] in "cm":
            self.roots[b] = repr(self.chase(list(t[2][0][1]) + ["*"], pos))
        if "ind" in f:
            add("call*", ",".join(self.canon(a) for a in self.T.args(ib, b)), c)
            return
        pn, rn = cname(f)
        if pn in TRANSPARENT or rn in TRANSPARENT:
            return
        tg = self.A.cg.targets(f)
        if len(t[3]) > 1 and ("*" in t[3][1:] or self.named(t[3])):
            st = self.target(self.T.place(ib, t[3], pos), t[3], pos)
            if st:
                add("set " + st, self.canon(self.T.callterm(ib, b, t)), c)
        if tg:
            if all((x.impl_trait or "").split("<")[0].split("::")[-1] in ("PartialEq", "PartialOrd", "Ord", "Hash") for x in tg):
                return
            if all(self.C.pure(x) for x in tg) and f.get("rk") != "virtual":
                return
            nm = pn if f.get("rk") == "virtual" else rn
            self.argcases(b, t, c, add, "call " + nm)
            return
        last = pn.split("::")[-1]
        if pn in ("FromResidual::from_residual", "Try::branch") or pn in VALUE_ID:
            return
        if last in ("_print", "_eprint", "exit", "panic_fmt", "write_all", "write", "create", "read_to_string", "read_line", "flush", "write_fmt", "write_str"):
            self.argcases(b, t, c, add, "io " + pn)
            return
        # mutation of something that outlives the function, or of a local collection
        from effects import PROJ_ONLY, INTERIOR
        if pn in PROJ_ONLY:
            return
        if not t[2]:
            return
        a0 = t[2][0]
        ty = ib.local_ty(a0[1][0]) if a0[0] in "cm" and len(a0[1]) == 1 else ""
        if not (ty.startswith("&mut ") or ty.startswith("std::cell::RefMut<") or pn in INTERIOR):
            if last in ("replace", "swap", "take") and pn.startswith("mem::") or pn.startswith("Entry::or_"):
                pass
            else:
                return
        if last in ("next", "next_back", "peek", "by_ref", "hash", "nth", "find", "any", "all", "position") and "Hash" not in pn:
            return
        tt = self.T.op(ib, a0, pos)
        if pn in ("HashMap::remove", "BTreeMap::remove", "Map::remove"):
            cp, self.curp = self.curp, b
            c = B.AND(c, self.atom("is", self.get(tt, self.T.op(ib, t[2][1], pos)), "S", 2))    # removing what is not there does nothing
            self.curp = cp
        if pn == "String::push":
            last = "push_str"
        if pn in ("Vec::remove", "VecDeque::remove") and re.fullmatch(r"\(Vec::len\((.*)\) Sub 1\)", self.canon(self.T.op(ib, t[2][1], pos))):
            last, t = "pop", t[:2] + [t[2][:1]] + t[3:]
        if pn in ("HashMap::retain", "BTreeMap::retain"):
            v = self.canon(self.T.op(ib, t[2][1], pos))
            m = re.fullmatch(r"λ\(return:\[(not )?(.*)\]\)", v)
            if m and "," not in m.group(2) and "&" not in m.group(2):
                src = self.canon(tt)
                e = self.each(src)
                x = re.sub(r"\bp2\b", e + ".0", re.sub(r"\bp3\b", e + ".1", m.group(2)))
                roots = self.A.E.apath(tt, ib)
                g = self.atom("true", x)
                add(f"mut {self.mutname(tt)} remove" if any(r[0] not in ("fresh", "?") for r, _ in roots) else "local remove", e + ".0", B.AND(c, g if m.group(1) else B.NOT(g)))
                add("loop", src, c)
                return
        if pn in ("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default") or pn.startswith("Option::get_or_insert"):
            return self.filled(b, t, c, add, pn, tt)
        if last == "entry":
            return
        if pn in ("Extend::extend", "Vec::extend", "HashSet::extend", "HashMap::extend", "BTreeSet::extend", "BTreeMap::extend", "Vec::extend_from_slice", "Vec::append") and re.search(r"(Vec|HashSet|HashMap|BTreeSet|BTreeMap|VecDeque)<", ty):
            src = self.canon(self.T.op(ib, t[2][1], pos))
            v = self.each(src)
            mp = re.search(r"(HashMap|BTreeMap)<", ty)
            nm = "push" if "Vec<" in ty else "insert"
            fx = None
            roots = self.A.E.apath(tt, ib)
            if any(r[0] not in ("fresh", "?") for r, _ in roots):
                fx = self.mutname(tt)
            add(f"mut {fx} {nm}" if fx else f"local {nm}", f"{v}.0, {v}.1" if mp else v, c)
            add("loop", src, c)
            return
        if last == "push_str" and a0[0] in "cm" and len(a0[1]) == 1:
            self.initial(b, a0[1][0], add)
        from paths import outer_field
        fld = None
        roots = self.A.E.apath(tt, ib)
        if any(r[0] not in ("fresh", "?") for r, _ in roots):
            rc = self.receivers(a0, pos)
            if rc:
                for x, f in rc:
                    self.argcases(b, t, B.AND(c, f), add, f"mut {self.mutname(x)} {last}", skip=1)
                return
            if last == "insert" and len(t[2]) == 3 and "Map<" in ty:
                # a collection put in with its elements is put in empty and then filled
                v = self.canon(self.T.op(ib, t[2][2], pos))
                d = self.dflt(v)
                els = re.fullmatch(r"\[([^\[\],{}]*)\]", v)
                if d != v or els:
                    k = self.canon(self.T.op(ib, t[2][1], pos))
                    add(f"mut {self.mutname(tt)} insert", f"{k}, default", c)
                    if els:
                        cp, self.curp = self.curp, b
                        add(f"mut {self.get(tt, self.T.op(ib, t[2][1], pos))} push", els.group(1), c)
                        self.curp = cp
                    return
            self.argcases(b, t, c, add, f"mut {self.mutname(tt)} {last}", skip=1)
        else:
            self.argcases(b, t, c, add, f"local {last}", skip=1)

    def mutname(self, x):
        from paths import outer_field
        tt = x
        while x[0] == "call" and x[2] and x[1].split("::")[-1] in ("as_mut", "as_ref", "unwrap", "get_or_insert_with", "borrow_mut", "branch", "expect", "deref_mut", "as_deref_mut") or x[0] in ("down", "clone") or x[0] == "field" and (not x[2] or x[2].startswith(("std::", "core::"))):
            x = x[2][0] if x[0] == "call" else x[1]
        return outer_field(x) or self.canon(tt)

    def receivers(self, o, pos):
        """[(term, formula)] when the thing changed is chosen among several"""
        ib = self.ib
        for _ in range(8):
            if o[0] not in "cm" or any(e != "*" for e in o[1][1:]):
                return None
            ds = self.T.reaching(ib, o[1][0], *pos)
            if len(ds) == 1 and ds[0] != ("param",) and ds[0][2] == "=":
                rv = ds[0][3]
                if rv[0] == "use":
                    o = rv[1]
                elif rv[0] == "ref" and rv[2][1:] == ["*"]:
                    o = ["c", rv[2]]
                else:
                    return None
                pos = (ds[0][0], ds[0][1])
                continue
            break
        if len(ds) < 2 or any(d == ("param",) or self.order.get(d[0], 0) >= self.order.get(pos[0], 0) for d in ds):
            return None
        return [(self.T.defterm(ib, d), f) for d, f in ((d, self.reachf(d, ds, pos[0])) for d in ds) if f != T0]

    def entryset(self, t, b, ty):
        """an entry of a map that is filled and then written is the same as an insertion of what is written"""
        if t[0] != "call" or t[1] not in ("Entry::or_insert", "Entry::or_default") or t[2][0][0] != "call" or not t[2][0][1].endswith("::entry"):
            return None
        m, k = t[2][0][2]
        if not any(r[0] not in ("fresh", "?") for r, _ in self.A.E.apath(m, self.ib)):
            return None
        cp, self.curp = self.curp, b
        pl = self.get(m, k)
        d = self.canon(t[2][1]) if len(t[2]) > 1 else "0" if re.search(r"[iu](8|16|32|64|size)$", ty or "") else "default"
        r = f"mut {self.mutname(m)} insert", self.canon(k), pl, "φ{" + "|".join(sorted({d, pl})) + "}"
        self.curp = cp
        return r

    def entrywritten(self, t, c):
        """the entry filled by this call is written wherever it is filled"""
        d = t[3]
        if not (isinstance(d, (list, tuple)) and len(d) == 1):
            return False
        return any(s[0] == "=" and list(s[1]) == [d[0], "*"] and self.cond(x) == c for x in self.rpo for s in self.ib.blocks[x]["s"])

    def filled(self, b, t, c, add, pn, tt):
        """a place filled when it is empty"""
        if pn in ("Entry::or_insert", "Entry::or_default") and self.entrywritten(t, c):
            return
        x = tt
        v = "default"
        pos = (b, len(self.ib.blocks[b]["s"]))
        if len(t[2]) > 1:
            v = self.canon(self.T.op(self.ib, t[2][1], pos))
            if pn.endswith("_with"):
                m = re.fullmatch(r"λ\(return:\[?(.*?)\]?\)", v)
                v = v[3:] + "()" if v.startswith("fn:") else m.group(1) if m else v
        cp, self.curp = self.curp, b
        if pn.startswith("Entry"):
            if x[0] == "call" and x[1].endswith("::entry"):
                m, k = x[2][0], x[2][1]
                f = self.B.NOT(self.atom("is", self.get(m, k), "S", 2))
                roots = self.A.E.apath(m, self.ib)
                nm = f"mut {self.mutname(m)} insert" if any(r[0] not in ("fresh", "?") for r, _ in roots) else "local insert"
                add(nm, f"{self.canon(k)}, {self.dflt(v) if nm != 'local insert' else v}", self.B.AND(c, f))
        else:
            f = self.B.NOT(self.isatom(x, "S", 2))
            roots = self.A.E.apath(x, self.ib)
            if any(r[0] not in ("fresh", "?") for r, _ in roots):
                add("set " + self.mutname(x), v, self.B.AND(c, f))
        self.curp = cp

    def initial(self, b, l, add):
        """a string under construction that does not start empty"""
        ib = self.ib
        ds = self.T.reaching(ib, l, b, len(ib.blocks[b]["s"]))
        if len(ds) != 1 or ds[0] == ("param",) or ds[0][2] != "=" or ds[0][3][0] != "ref" or len(ds[0][3][2]) != 1:
            return
        s = ds[0][3][2][0]
        for x in ib.reach:
            if x not in self.canret:
                continue
            bl = ib.blocks[x]
            ops = [(["c", [s]], i + 1, st[2]) for i, st in enumerate(bl["s"]) if st[0] == "=" and st[1] == [s]]
            t = bl["t"]
            v = None
            if t[0] == "call" and t[3] == [s]:
                v = self.canon(self.T.callterm(ib, x, t))
            for _, i, rv in ops:
                v = self.canon(self.T.rvalue(ib, rv, (x, i - 1)))
            if v is not None and not re.fullmatch(r"\w+::(new|with_capacity)\(.*\)|default|\"\"", v):
                add("local push_str", v, self.cond(x))

    def argcases(self, b, t, c, add, name, skip=0):
        """one event per combination of argument cases (at most one argument is split)"""
        ib, B = self.ib, self.B
        pos = (b, len(ib.blocks[b]["s"]))
        cs = [self.aged(a, pos) for a in t[2][skip:]]
        multi = [i for i, x in enumerate(cs) if len(x) > 1]
        used = ""
        n = 1
        for i in multi:
            n *= len(cs[i])
        if n <= 8 or len(multi) == 1:
            combos = [([], T1)]
            for x in cs:
                combos = [(l + [v], B.AND(f, g) if len(x) > 1 else f) for l, f in combos for v, g in x]
            for l, f in combos:
                add(name, ", ".join(l) + used, B.AND(c, f))
        else:
            vals = [x[0][0] if len(x) == 1 else "φ{" + "|".join(sorted({y[0] for y in x})) + "}" if x else "" for x in cs]
            add(name, ", ".join(vals) + used, c)


class Contracts:
    def __init__(self, A, maxpure=14):
        self._mt = {}
        self.A = A
        self._pure = {}
        self._clo = {}
        self.maxpure = maxpure
        self._words = {}

    def pure(self, b):
        """no effect on anything that outlives the call, no callbacks"""
        if not self._pure:
            bad, dep, upv = set(), {}, set()
            for p, x in self.A.crate.bodies.items():
                for r, f in self.A.E.writes().get(p, ()):
                    k = r[0]
                    if k == "outer" and r[2][0] in ("fresh", "upvar") or k == "upvar":
                        upv.add(p)
                    elif k in ("param", "static", "outer"):
                        bad.add(p)
                if "::{closure" in p:
                    # what a closure does beyond its captures, the function around it may do
                    dep.setdefault(p, set()).add(p.rsplit("::{closure", 1)[0])
                for blk, t in x.calls():
                    f = t[1]
                    if "ind" in f or cname(f)[0].split("::")[-1] in ("_print", "_eprint", "exit"):
                        bad.add(p)
                        break
                    for y in self.A.cg.targets(f):
                        dep.setdefault(y.path, set()).add(p)
            todo = list(bad)
            while todo:
                for q in dep.get(todo.pop(), ()):
                    if q not in bad:
                        bad.add(q)
                        todo.append(q)
            bad |= upv
            self._pure = {p: p not in bad for p in self.A.crate.bodies}
        return self._pure.get(b.path, False)

    def mentioned(self, text):
        """(field names, field sets of the functions) a canonical text reads"""
        if text not in self._mt:
            fs, cs = set(), []
            for m in READS.finditer(full(text)):
                if m.group(1):
                    fs.add(m.group(1))
                else:
                    b = self.byname(m.group(2))
                    if b is not None:
                        cs.append(self.reads(b))
            self._mt[text] = (fs, cs)
        return self._mt[text]

    def byname(self, n):
        if not hasattr(self, "_byname"):
            self._byname = {}
            for b in self.A.fns():
                self._byname.setdefault(short(b.path), b)
        return self._byname.get(n)

    def reads(self, b):
        """fields a function names, itself or through callees"""
        if not hasattr(self, "_reads"):
            from paths import mentions
            mentions(self.A, [])
            R = {p: set(f) for p, f in self.A._ment.items()}
            ed = {}
            for x in self.A.crate.bodies.values():
                ed[x.path] = {y for y, _ in self.A.cg.edges.get(x.path, ())}
            ch = True
            while ch:
                ch = False
                for p, es in ed.items():
                    n = len(R.get(p, ()))
                    for q in es:
                        R.setdefault(p, set()).update(R.get(q, ()))
                    ch |= len(R.get(p, ())) != n
            self._reads = R
        return self._reads.get(b.path, set())

    def small_pure(self, b):
        """spliced into its callers: as recorded with the contracts, else by size"""
        if (b.impl_trait or "").split("::")[-1].split("<")[0] in ("PartialEq", "PartialOrd", "Ord", "Hash"):
            return False
        if self.splice is None:
            try:
                self.splice = set(json.load(open(os.path.join(SPECS, "splice.json")))[self.A.crate.name])
            except OSError:
                self.splice = set()
        return b.path in self.splice

    splice = None

    def by_size(self, b):
        return self.pure(b) and len(b.reach) <= self.maxpure and not b.loops and "{closure" not in b.path

    def closure(self, b):
        if b.path not in self._clo:
            self._clo[b.path] = "rec"
            s = Summ(self.A, self.A.I.get(b, self.small_pure, "ct"), self)
            try:
                ev = s.events()
                out = []
                for k, d in sorted(ev.items()):
                    if set(d) <= {"True", "False"} and "True" in d:
                        out.append(f"{k}:{ftext(s.B, d['True'])}")
                    else:
                        out.append(f"{k}:" + "|".join(sorted(v + (" if " + ftext(s.B, f) if f > 1 else "") for v, f in d.items())))
                self._clo[b.path] = ";".join(out)
            except (OverflowError, RecursionError):
                self._clo[b.path] = "?"
        return self._clo[b.path]

    def words_of(self, b):
        if b.path not in self._words:
            self._words[b.path] = set()
            self._words[b.path] = Summ(self.A, self.view(b), self).words()
        return self._words[b.path]

    def view(self, b):
        return self.A.I.get(b, self.small_pure, "ct")

    def summary(self, b):
        """{target: {value: bdd dump}}, atom metadata, shape"""
        ib = self.view(b)
        ev = None
        for loc, chain in ((False, False), (True, False), (False, True)):
            s = Summ(self.A, ib, self, loc)
            s.chain = chain
            try:
                ev = s.events()
                break
            except OverflowError:
                pass
        if ev is None:
            return {"ev": {}, "meta": {}, "shape": "overflow", "before": [], "repeat": [], "_s": None}
        # what may be another value each time it is asked for, and is asked for at more than one place
        often = {}
        for x, t in ib.calls():
            if x in s.canret and "ind" not in t[1] and t[3] and len(t[3]) == 1:
                cs = self.A.cg.targets(t[1])
                if cs and not all(self.pure(c) for c in cs):
                    for d in ib.defs.get(t[3][0], ()):
                        if d[0] == x and d[1] == "T":
                            often.setdefault(s.canon(s.T.defterm(ib, d)), set()).add(x)
        often = {k for k, v in often.items() if len(v) > 1 and "(" in k}
        for n, m in s.meta.items():
            if often and m[0] in ("is", "eq") and any(full(x) in full(str(m[1])) for x in often):
                s.meta[n] = (m[0], m[1], m[2], -1 if m[0] == "eq" else -m[3] if m[3] else -1)
        used = set()
        o = {}
        for k, d in ev.items():
            o[k] = {}
            for v, f in d.items():
                o[k][v] = s.B.dump(f)
                used |= s.B.support(f)
        before, rep = s.orders()
        ad = sorted({cname(t[1])[0].split("::")[-1] for x, t in ib.calls() if "ind" not in t[1] and cname(t[1])[0].split("::")[-1] in ADAPT})
        ncl = sum(1 for x in ib.reach for st in ib.blocks[x]["s"] if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "closure")
        return {"ev": o, "meta": {k: list(v) for k, v in s.meta.items() if k in used}, "shape": f"{','.join(sorted(s.kinds))}|C{ncl}|{','.join(ad)}", "before": before, "repeat": rep, "bag": sorted(s.words()), "seq": s.seq(), "_s": s}


APPEND = re.compile(r"(local|mut .*) (push|push_str|push_back|extend)$|io |call \w+(::\w+)*::push(_\w+)?$|call .*::write_\w+$")


# ---------- comparison ----------
STDW = {"p", "each", "err", "or", "fmt", "dc", "Add", "Sub", "Mul", "Lt", "Le", "Eq", "Ne", "Not", "Some", "None", "Ok", "obj", "Object", "parent", "Weak", "new", "path", "len", "Vec", "Option", "String", "unwrap", "self",
        "tuple", "empty", "map", "iter", "str", "default", "Iterator", "collect", "filter", "T", "call", "set", "mut", "local", "return", "loop", "push", "insert", "push_str", "extend", "get", "HashMap", "Rc", "Box", "Clone", "clone", "as", "ref",
        "any", "all", "find", "position", "enumerate", "Range", "start", "end", "is", "λ", "φ", "ITER", "to_string", "from", "into", "f", "i", "Index", "index", "Deref", "as_str", "is_empty", "contains_key", "map_or", "and_then", "is_some_and",
        "unwrap_or", "unwrap_or_default", "or_else", "is_none_or", "cmp", "PartialEq", "eq", "ne", "Fn", "FnMut", "FnOnce", "call_mut", "call_once", "next", "0", "1", "true", "false", "True", "False", "io", "zip", "chain", "fold", "flat_map", "filter_map", "for_each", "join", "concat", "sum", "count"}


@lru_cache(None)
def hard(s):
    """names and literals that carry meaning"""
    out = set()
    for q in re.findall(r'"(?:[^"\\]|\\.)*"', s):
        out.add(q)
    s2 = re.sub(r'"(?:[^"\\]|\\.)*"', " ", s)
    s2 = re.sub(r"…[0-9a-f]{8}", " ", s2)
    for w in re.findall(r"-?[A-Za-z_0-9]+", s2):
        if w in STDW or re.fullmatch(r"p\d+|_\d+", w):
            continue
        out.add(w)
    return frozenset(out)


def loose(a, b):
    """two canonical texts that may be the same value written differently"""
    if a == b or ("Ord::max(" in a) != ("Ord::max(" in b) and maxed(a) == maxed(b):
        return True
    if "…" in a and "…" in b and a.split("…")[0] == b.split("…")[0]:
        return hard(a) == hard(b)
    ha, hb = hard(a), hard(b)
    if "…" in a and "…" in b and re.search(r"…[^0-9a-f]|…$", a) and re.search(r"…[^0-9a-f]|…$", b):
        big = lambda h: {w for w in h if w[0] in '"' or w[0].isupper()}
        return big(ha) == big(hb)
    if ha != hb:
        return False
    # same words: a different operator or operand order is a change
    ops = r"\b(Add|Sub|Mul|Div|Rem|Lt|Le|Eq|Ne|Neg|Not|Shl|Shr|BitAnd|BitOr|true|false|True|False)\b|(?<![\w#])-?\d+(?![\w])"
    if [m.group(0) for m in re.finditer(ops, a)] != [m.group(0) for m in re.finditer(ops, b)]:
        return False
    ws = lambda s: [w for w in re.findall(r"[A-Za-z_]\w*", s) if w in ha]
    return ws(a) == ws(b)


def similar_atoms(a, b, ma, mb):
    """atoms that may ask the same thing in another form"""
    if hard(a) != hard(b):
        return False
    if ma[0] == mb[0] and ma[0] in ("lt", "eq"):
        if {ma[1], ma[2]} == {mb[1], mb[2]}:
            return False
        # same operands up to constants
        na = re.findall(r"(?<![\w#])-?\d+(?!\w)", a)
        nb = re.findall(r"(?<![\w#])-?\d+(?!\w)", b)
        if sorted(na) != sorted(nb):
            return False
    if ma[0] != mb[0] and {ma[0], mb[0]} == {"lt", "eq"}:
        return False
    return True


def domain(B, meta):
    """exclusivity and exhaustiveness of variant and constant tests"""
    g = {}
    for n, m in meta.items():
        if isinstance(m[3], int) and m[3] < 0:
            # not one value
            continue
        if m[0] == "is" or m[0] == "eq" and m[2] and (m[2][:1] in "'\"-0123456789"):
            # an optional thing and what is in it have one name
            g.setdefault((m[0], m[1], m[0] == "is" and (m[3], m[2] in ("S", "N"))), []).append((n, m))
    K = 1
    for (k, subj, _), l in g.items():
        vs = [B.var(n) for n, _ in l]
        if len(vs) > 1 and len(vs) <= 40:
            none, one = 1, 0
            for v in vs:
                one = B.OR(B.AND(one, B.NOT(v)), B.AND(none, v))
                none = B.AND(none, B.NOT(v))
            n = l[0][1][3] or 0
            K = B.AND(K, one if k == "is" and n == len(vs) else B.OR(one, none))
    empties = [n for n in meta if n.startswith("empty(")]
    # what is found inside an optional thing needs the thing
    for n in meta:
        if n.endswith("]?") and "′" not in n:
            i, dep = len(n) - 2, 0
            while i > 0:
                dep += {"]": 1, "[": -1}.get(n[i], 0)
                if dep == 0:
                    break
                i -= 1
            o = n[:i] + "?"
            if i > 0 and o in meta:
                K = B.AND(K, B.OR(B.NOT(B.var(n)), B.var(o)))
    # there is a largest and a smallest item of a list that is not empty
    for n in meta:
        x = re.fullmatch(r"InkList::get_(?:max|min)_item\((.*)\)\?", full(n))
        if x:
            for e in empties:
                if full(e) == f"empty({x.group(1)}.items)":
                    v, w = B.var(n), B.var(e)
                    K = B.AND(K, B.ite(v, B.NOT(w), w))
    # lt: antisymmetry and trichotomy
    lt = {(m[1], m[2]): n for n, m in meta.items() if m[0] == "lt"}
    for (a, b), n in lt.items():
        if (b, a) in lt and a < b:
            K = B.AND(K, B.NOT(B.AND(B.var(n), B.var(lt[(b, a)]))))
            for e in (f"{a} == {b}", f"{b} == {a}"):
                if e in meta:
                    x, y, z = B.var(n), B.var(lt[(b, a)]), B.var(e)
                    K = B.AND(K, B.ite(z, B.AND(B.NOT(x), B.NOT(y)), B.OR(x, y)))
    return K


def cube(B, f):
    """one satisfying assignment, as text"""
    out = []
    while f > 1:
        v, lo, hi = B.nodes[f]
        if hi != 0:
            out.append(B.names[v])
            f = hi
        else:
            out.append("not " + B.names[v])
            f = lo
    return " and ".join(x if len(x) < 110 else x[:50] + "…" + x[-50:] for x in out) or "always"


NOISE = ("local ", )


def compare(R, S, known=()):
    """[(key, message)] differences of the current summary S against the reviewed one R"""
    out = []
    if R["shape"] == "overflow" or S["shape"] == "overflow":
        return out
    ra = {(t, v) for t, d in R["ev"].items() for v in d}
    sa = {(t, v) for t, d in S["ev"].items() for v in d}
    if R["ev"] == S["ev"]:
        return orderdiff(R, S)
    relaxed = R["shape"] != S["shape"]
    if relaxed:
        return bagdiff(R, S, known) + orderdiff(R, S)
    B = BDD()
    B.cap = 1500000
    meta = dict(R["meta"])
    meta.update(S["meta"])
    try:
        # identical first
        r_only = set(R["meta"]) - set(S["meta"])
        s_only = set(S["meta"]) - set(R["meta"])
        ren = {}
        for s in sorted(s_only):
            c = [r for r in sorted(r_only) if loose(r, s)]
            if c:
                ren[s] = c[0]
                r_only.discard(c[0])
        s_only -= set(ren)
        # atoms in another form: either polarity may be meant
        alt = {}
        for s in sorted(s_only):
            c = [r for r in sorted(r_only) if similar_atoms(r, s, R["meta"][r], S["meta"][s])]
            if c:
                alt[s] = c[0]
                r_only.discard(c[0])
        maps = [dict(ren)]
        for s, r in list(alt.items())[:5]:
            maps = [dict(m, **{s: x}) for m in maps for x in (r, "¬" + r)]
        best = None
        for mp in maps:
            o = evdiff(R, S, B, meta, mp)
            if best is None or len(o) < len(best):
                best = o
            if not o:
                break
        out += best
        if out:
            # yes/no fields worked out in another way: when they are yes is compared on its own
            ks = {t[5:].rsplit(".", 1)[1] for t in set(R["ev"]) & set(S["ev"]) if t.startswith("pick ") and not t.endswith("°") and set(R["ev"][t]) | set(S["ev"][t]) <= {"True", "False"} and "." in t}
            if ks:
                mr, ms = (dict(X, ev=unflagged(X["ev"], ks, B)) for X in (R, S))
                o = evdiff(mr, ms, B, meta, mp)
                if len(o) < len(out):
                    out = o
    except OverflowError:
        pass
    return out + orderdiff(R, S)


def unflagged(ev, ks, B):
    """the effects, with the yes/no fields ks left open in the values"""
    out = {}
    for t, d in ev.items():
        o = out.setdefault(t, {})
        for v, f in d.items():
            w = full(v)
            for k in ks:
                i = 0
                while True:
                    m = re.compile(r"\b%s:(?=\[|φ\{False\|True\})" % re.escape(k)).search(w, i)
                    if not m:
                        break
                    i = m.end()
                    if w[i] == "φ":
                        j = i + len("φ{False|True}")
                    else:
                        n = 0
                        for j in range(i, len(w)):
                            n += {"[": 1, "]": -1}.get(w[j], 0)
                            if n == 0:
                                break
                        j += 1
                    w = w[:i] + "φ" + w[j:]
            w = w if w != full(v) else v
            o[w] = B.dump(B.OR(B.load(o[w]), B.load(f))) if w in o else f
    return out


def maxed(v):
    """the largest of what was kept and what is met, chosen by hand or by Ord::max"""
    v = full(v)
    i = v.find("Ord::max(")
    while i >= 0:
        d, cuts = 0, []
        for j in range(i + 8, len(v)):
            d += {"(": 1, ")": -1}.get(v[j], 0)
            if v[j] == "," and d == 1:
                cuts.append(j)
            if d == 0:
                break
        if len(cuts) == 1:
            a, b = v[i + 9:cuts[0]], v[cuts[0] + 1:j]
            if f"φ{{{a}|" in v[:i] + "|" or f"|{a}}}" in v:
                v = v[:i] + b + v[j + 1:]
        i = v.find("Ord::max(", i + 1)
    return re.sub(r"φ\{([^{}|]*)\|([^{}|]*)\}", lambda x: "φ{" + "|".join(sorted(x.groups())) + "}", v)


def evdiff(R, S, B, meta, ren):
    out = []
    K = domain(B, meta)
    for t in sorted(set(R["ev"]) | set(S["ev"])):
        rd, sd = R["ev"].get(t), S["ev"].get(t)
        if t.startswith("local "):
            rd, sd = rd or {}, sd or {}
        if t.startswith("pick "):
            if rd is not None and sd is not None:
                yn = set(rd) | set(sd) <= {"True", "False"}
                both = K
                if not yn:      # where either has nothing chosen yet, nothing is used
                    for x in ([B.load(f) for f in rd.values()], [B.load(f, ren) for f in sd.values()]):
                        a = 0
                        for f in x:
                            a = B.OR(a, f)
                        both = B.AND(both, a)
                for v in set(rd) | set(sd) if yn else set(rd) & set(sd):
                    d = B.AND(B.XOR(B.load(rd[v]) if v in rd else 0, B.load(sd[v], ren) if v in sd else 0), both)
                    if d:
                        out.append((f"pick:{t[5:65]}:{v[:40]}", f"of {t[5:200]}, {v[:80]} is chosen under other conditions: {cube(B, d)}"))
            continue
        if rd is None:
            out.append((f"new:{t}", f"new effect: {t} {sorted(sd)[:2]} when {cube(B, B.load(next(iter(sd.values())), ren))}"))
            continue
        if sd is None:
            out.append((f"lost:{t}", f"lost effect: {t} {sorted(rd)[:2]} when {cube(B, B.load(next(iter(rd.values()))))}"))
            continue
        rl = {v: B.load(f) for v, f in rd.items()}
        sl = {v: B.load(f, ren) for v, f in sd.items()}
        pair = {v: v for v in rl if v in sl}
        rleft = [v for v in rl if v not in pair]
        sleft = [v for v in sl if v not in pair.values()]
        for v in list(rleft):
            m = [u for u in sleft if loose(v, u)]
            if m:
                pair[v] = m[0]
                rleft.remove(v)
                sleft.remove(m[0])
        # one value split into several cases, or several joined: compare what they say together
        if rleft or sleft:
            hr = frozenset().union(*[hard(full(v)) for v in rleft]) if rleft else frozenset()
            hs = frozenset().union(*[hard(full(v)) for v in sleft]) if sleft else frozenset()
            fr = 0
            for v in rleft:
                fr = B.OR(fr, rl[v])
            fs = 0
            for v in sleft:
                fs = B.OR(fs, sl[v])
            same_words = hr == hs and (rleft and sleft) and (len(rleft) != len(sleft) or all("φ" in v for v in rleft + sleft))
            if not same_words:
                # perhaps covered by the φ of the paired values
                for v in rleft:
                    out.append((f"value:{t}:{v[:60]}", f"{t}: {v} is no longer the value given (now {sleft[:3]})"))
                for v in sleft:
                    if not rleft:
                        out.append((f"value:{t}:{v[:60]}", f"{t}: new value {v} when {cube(B, sl[v])}"))
                continue
            if B.AND(B.XOR(fr, fs), K) != 0:
                out.append((f"cond:{t}", f"{t}: condition changed"))
        for v, u in pair.items():
            d = B.AND(B.XOR(rl[v], sl[u]), K)
            if d == 0:
                continue
            gone = B.AND(d, rl[v])
            new = B.AND(d, sl[u])
            if gone:
                out.append((f"cond:{t}:{v[:60]}", f"{t} = {v[:120]}: no longer happens when {cube(B, gone)}"))
            else:
                out.append((f"cond:{t}:{v[:60]}", f"{t} = {v[:120]}: now also happens when {cube(B, new)}"))
    return out


def bagdiff(R, S, known=()):
    """after a loop or closure was restructured: only what is named must agree"""
    out = []
    rt = {t for t in R["ev"] if not t.startswith(("local", "return", "loop", "pick"))}
    st = {t for t in S["ev"] if not t.startswith(("local", "return", "loop", "pick"))}
    for t in sorted(rt - st):
        out.append((f"lost:{t}", f"lost effect: {t} {sorted(R['ev'][t])[:2]}"))
    for t in sorted(st - rt):
        out.append((f"new:{t}", f"new effect: {t} {sorted(S['ev'][t])[:2]}"))
    rb, sb = set(R["bag"]), set(S["bag"])
    for w in sorted(rb - sb):
        if re.match(r"fn <.* as (PartialEq|PartialOrd|Ord|Clone|Display|Hash)>::", w):
            continue        # operators may go through the library's impls for references
        if not w.startswith("fn ") or w[3:] in known:
            out.append((f"lost-word:{w}", f"{w.removeprefix('fn ')} no longer occurs"))
    for w in sorted(sb - rb):
        if w[0] in "\"'-0123456789" and w not in ("2",):
            out.append((f"new-word:{w}", f"{w} is new"))
        elif w.startswith("fn ") and w[3:] in known:
            out.append((f"new-word:{w}", f"{w[3:]} is new here"))
    return out


def orderdiff(R, S):
    s = S.get("_s")
    if s is None or not hasattr(s, "fol"):
        return []
    out = []
    ts = s.sites
    rq, sq = set(map(tuple, R.get("seq", ()))), set(map(tuple, S.get("seq", ())))
    for t, u, v in sorted(rq):
        if (t, v, u) in sq and (t, v, u) not in rq and (t, u, v) not in sq:
            out.append((f"seq:{t}:{dig(u, 60)}>{dig(v, 60)}", f"{t}: {dig(v, 80)} now comes before {dig(u, 80)}"))
    for t, u in R["before"]:
        if t in s.fol and u in s.fol and s.fol[u] & set(ts[t]) and s.late(u, t):
            out.append((f"order:{t}>{u}", f"{u} can now come before {t}, which it depends on"))
    for t in S["repeat"]:
        if t not in R["repeat"] and t in R["ev"] and not t.startswith("io"):
            out.append((f"repeat:{t}", f"{t} can now happen twice in a row"))
    for t in R["repeat"]:
        if t not in S["repeat"] and t in S["ev"]:
            pass
    return out


# ---------- whole crates ----------
import os
SPECS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")


def keys(A):
    """contract key -> body: the short name, or the full path where that is ambiguous"""
    out, n = {}, {}
    bs = [b for b in A.fns() if "{closure" not in b.path and "{constant" not in b.path and "::tests::" not in b.path]
    for b in bs:
        n[short(b.path)] = n.get(short(b.path), 0) + 1
    for b in bs:
        s = short(b.path)
        k = s if n[s] == 1 else b.path
        out[k] = b
    return out


def contracts_of(A):
    if not hasattr(A, "_contracts"):
        A._contracts = Contracts(A)
    return A._contracts


def summary_of(A, b):
    if not hasattr(A, "_summ"):
        A._summ = {}
    if b.path not in A._summ:
        A._summ[b.path] = contracts_of(A).summary(b)
    return A._summ[b.path]


def all_summaries(A):
    return {k: summary_of(A, b) for k, b in sorted(keys(A).items())}


def load_specs(cn):
    if os.path.exists(os.path.join(SPECS, "full.json")):
        for h, x in json.load(open(os.path.join(SPECS, "full.json"))).items():
            FULL.setdefault(h, tuple(x))
    return json.load(open(os.path.join(SPECS, cn + ".json")))


def diff_fn(A, specs, k, b, missing):
    """differences of function k, leaving out what the disappearance of another known function explains"""
    out = compare(specs[k], summary_of(A, b), {short(x.path) for x in keys(A).values()} & set(specs))
    if out and missing:
        gone = [m for m in missing if any(t.endswith(" " + m) for t in specs[k]["ev"]) or any(m + "(" in x for d in specs[k]["ev"].values() for x in d)
                or any(m + "(" in x for x in specs[k]["meta"])]
        if gone:
            return []
    return out
