"""Path-sensitive interprocedural dataflow (property simulation).

A rule gives an automaton: a start state q, transfer functions on statements,
calls and branch edges.  The engine propagates (q, env) pairs over the CFG where
env holds what is known about boolean / enum-variant valued locals (constant
propagation of Ok/Err, Some/None, true/false through `?`, match, is_some ...),
and builds function summaries  (q_in, known bool args) -> {(q_out, returned variant)}.
Nothing is executed and no constraint is solved: the only facts tracked are
which variant a local is known to hold.
"""
from names import short
from terms import cname

UNKNOWN = None


def V(name, inner=None):
    return ("v", name, inner)


def B(x):
    return ("b", bool(x))


def inner_of(v):
    return v[2] if v and v[0] == "v" else None


class Rule:
    """Override in rules."""

    def relevant(self, body):
        """must be True for bodies holding events directly"""
        return False

    def stmt(self, body, b, i, s, q):
        return q

    def call(self, body, b, t, q):
        """return None to use the default, or a list of (q, absret)"""
        return None

    def after_call(self, body, b, t, q):
        return q

    def edge(self, body, b, succ, q, eng):
        """called for each branch edge; return q or None to prune"""
        return q

    def ret(self, body, q):
        """called on return from a body (frame pop)"""
        return q


class Engine:
    MAXSTATES = 6000

    def __init__(self, crate, cg, T, rule):
        self.crate, self.cg, self.T, self.rule = crate, cg, T, rule
        self.summ = {}
        self.inprog = set()
        self.hit = False
        self.changed = False
        self.rel = {}
        self.overflow = set()
        self.parents = {}
        self._prep_rel()

    # bodies from which an event is reachable
    def _prep_rel(self):
        direct = {b.path for b in self.crate.bodies.values() if self.rule.relevant(b)}
        callers = self.cg.callers
        seen = set(direct)
        st = list(direct)
        while st:
            p = st.pop()
            for c, _ in callers.get(p, ()):
                if c not in seen:
                    seen.add(c)
                    st.append(c)
        self.relset = seen

    # ---- summaries ----
    def summary(self, body, q, args=()):
        key = (body.path, q, args)
        if key in self.summ and key not in self.stale:
            return self.summ[key]
        if key in self.inprog:
            self.hit = True
            return self.summ.setdefault(key, frozenset())
        self.inprog.add(key)
        while True:
            saved_hit = self.hit
            self.hit = False
            r = self.run(body, q, args)
            old = self.summ.get(key, frozenset())
            self.summ[key] = r
            self.stale.discard(key)
            hit, self.hit = self.hit, saved_hit or self.hit
            if not hit or r == old:
                break
            # recursion was met: invalidate dependents and iterate
            for k in list(self.summ):
                if k != key and k not in self.inprog:
                    self.stale.add(k)
        self.inprog.discard(key)
        return self.summ[key]

    stale = set()

    def analyse(self, body, q, args=()):
        self.stale = set()
        return self.summary(body, q, args)

    # ---- intraprocedural ----
    def liveness(self, body):
        if hasattr(body, "_live"):
            return body._live
        use = [set() for _ in range(body.n)]
        dfn = [set() for _ in range(body.n)]
        for b in body.reach:
            bl = body.blocks[b]
            u, d = set(), set()

            def useop(o):
                if o[0] in "cm":
                    for l in place_locals(o[1]):
                        if l not in d:
                            u.add(l)
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                for o in rv_ops(s[2]):
                    useop(o)
                for p in rv_places(s[2]):
                    for l in place_locals(p):
                        if l not in d:
                            u.add(l)
                if len(s[1]) == 1:
                    d.add(s[1][0])
                else:
                    for l in place_locals(s[1]):
                        if l not in d:
                            u.add(l)
            t = bl["t"]
            for o in term_ops(t):
                useop(o)
            if t[0] == "call" and len(t[3]) == 1:
                pass
            use[b], dfn[b] = u, d
        live = [set() for _ in range(body.n)]
        changed = True
        order = body.rpo[::-1]
        while changed:
            changed = False
            for b in order:
                out = set()
                for s in body.succs[b]:
                    out |= live[s]
                t = body.blocks[b]["t"]
                if t[0] == "call" and len(t[3]) == 1:
                    out = out - {t[3][0]}
                if t[0] == "ret":
                    out = out | {0}
                n = use[b] | (out - dfn[b])
                if n != live[b]:
                    live[b] = n
                    changed = True
        body._live = live
        return live

    def untracked(self, body):
        if hasattr(body, "_untr"):
            return body._untr
        s = set()
        for b in body.reach:
            for st in body.blocks[b]["s"]:
                if st[0] == "=" and st[2][0] == "ref" and st[2][1] and "*" not in st[2][2][1:]:
                    # &mut of an owned local: only harmful for locals whose value we track
                    s.add(st[2][2][0])
        body._untr = s
        return s

    def run(self, body, q0, args):
        env0 = {}
        for i, a in enumerate(args):
            if a is not None:
                env0[i + 1] = a
        start = (0, q0, frozenset(env0.items()))
        seen = {start}
        parents = self.parents.setdefault((body.path, q0, args), {})
        parents[start] = None
        wl = [start]
        outs = set()
        live = self.liveness(body)
        count = {}
        while wl:
            st = wl.pop()
            b, q, env = st
            for (nb, nq, nenv) in self.block(body, b, q, dict(env)):
                if nb == "ret":
                    nq = self.rule.ret(body, nq)
                    if nq is not None:
                        outs.add((nq, nenv))
                        parents.setdefault(("ret", nq, nenv), st)
                    continue
                lv = live[nb]
                items = frozenset((k, v) for k, v in nenv.items()
                                  if (k in lv if isinstance(k, int) else True) and (v[0] not in ("dl", "lk") or v[1] in lv or not isinstance(v[1], int) or True))
                ns = (nb, nq, items)
                if ns in seen:
                    continue
                count[nb] = count.get(nb, 0) + 1
                if count[nb] > self.MAXSTATES:
                    self.overflow.add(body.path)
                    ns = (nb, nq, frozenset())
                    if ns in seen:
                        continue
                seen.add(ns)
                parents[ns] = st
                wl.append(ns)
        return frozenset(outs)

    def trace(self, body, q0, args, retkey):
        """lines along one path to a return state"""
        parents = self.parents.get((body.path, q0, args), {})
        k = ("ret",) + retkey
        lines = []
        st = parents.get(k)
        while st is not None:
            b = st[0]
            t = body.blocks[b]["t"]
            if t[0] in ("call", "switch", "assert"):
                ln = t[5] if t[0] != "assert" else t[6]
                lines.append(ln)
            st = parents.get(st)
        out = []
        for l in reversed(lines):
            if not out or out[-1] != l:
                out.append(l)
        return out

    # abstract value of an operand
    def aval(self, body, env, o):
        if o[0] == "k":
            c = o[1]
            if c.get("ty") == "bool" and isinstance(c.get("v"), bool):
                return B(c["v"])
            if isinstance(c.get("v"), int) and not isinstance(c.get("v"), bool):
                return ("i", c["v"])
            return None
        return self.pval(body, env, o[1])

    def pval(self, body, env, p):
        v = env.get(p[0]) if len(p) == 1 else None
        if len(p) == 1:
            return v
        # projections: (_x as Some).0 ; deref of refs to tracked locals
        v = env.get(p[0])
        pr = [e for e in p[1:] if e != "*"]
        if not pr:
            return v
        cur = v
        for e in pr:
            if cur is None:
                break
            if e[0] == "d":
                if cur[0] == "v" and cur[1] != e[1]:
                    return None
            elif e[0] == "f":
                if cur[0] == "v":
                    cur = cur[2] if e[1] == 0 else None
                elif cur[0] == "t":
                    cur = cur[1][e[1]] if e[1] < len(cur[1]) else None
                else:
                    cur = None
            else:
                cur = None
        if cur is not None:
            return cur
        return env.get("P" + str(p))

    def setp(self, body, env, p, v):
        l = p[0]
        if len(p) == 1:
            for k in [k for k, x in env.items() if x[0] in ("dl", "lk") and x[1] == l]:
                del env[k]
            for k in [k for k in env if isinstance(k, str) and k.startswith(f"P[{l},")]:
                del env[k]
            if v is None or l in self.untracked(body):
                env.pop(l, None)
            else:
                env[l] = v
        else:
            # a store through a projection: forget what we know of the base and of places
            if "*" not in p[1:]:
                env.pop(l, None)
            for k in [k for k in env if isinstance(k, str)]:
                del env[k]

    def assign(self, body, env, p, r):
        k = r[0]
        v = None
        if k == "use":
            v = self.aval(body, env, r[1])
            if v is None and r[1][0] in "cm" and len(r[1][1]) == 1 and body.local_ty(r[1][1][0]) == "bool":
                v = ("lk", r[1][1][0], "bool")
        elif k == "ref" and not r[1]:
            v = self.pval(body, env, r[2])
            if v is None and len(r[2]) == 1:
                v = ("lk", r[2][0], "ref")
        elif k == "agg":
            if r[1] == "adt":
                inner = self.aval(body, env, r[5][0]) if r[5] else None
                if inner is not None and inner[0] == "lk":
                    inner = None
                v = V(r[3], inner)
            elif r[1] == "tuple" and r[5]:
                v = ("t", tuple(self._noln(self.aval(body, env, o)) for o in r[5]))
        elif k == "disc":
            pv = self.pval(body, env, r[1])
            names = {nm: d for d, nm in r[3]}
            if pv and pv[0] == "v" and pv[1] in names:
                v = ("i", names[pv[1]])
            else:
                tgt = r[1]
                base = env.get(tgt[0])
                if len(tgt) >= 2 and all(e == "*" for e in tgt[1:]) and base and base[0] == "lk" and base[2] == "ref":
                    tgt = [base[1]]
                if len(tgt) == 1:
                    v = ("dl", tgt[0], tuple((d, nm) for d, nm in r[3]))
                else:
                    v = ("dl", "P" + str(tgt), tuple((d, nm) for d, nm in r[3]))
        elif k == "un" and r[1] == "Not":
            a = self.aval(body, env, r[2])
            if a and a[0] == "b":
                v = B(not a[1])
            elif r[2][0] in "cm" and len(r[2][1]) == 1:
                v = ("lk", r[2][1][0], "not") if a is None else self._neg(a)
        elif k == "bin" and r[1] in ("Eq", "Ne"):
            a, c = self.aval(body, env, r[2]), self.aval(body, env, r[3])
            if a and c and a[0] == c[0] and a[0] in ("i", "b"):
                v = B((a[1] == c[1]) == (r[1] == "Eq"))
        elif k == "cast":
            v = self.aval(body, env, r[2])
            if v and v[0] not in ("b", "i", "dl"):
                v = None
        self.setp(body, env, p, v)

    def _noln(self, v):
        return None if v and v[0] in ("lk", "dl") else v

    def _neg(self, a):
        if a[0] == "lk":
            m = {"bool": "not", "not": "bool"}
            if a[2] in m:
                return ("lk", a[1], m[a[2]])
            if isinstance(a[2], tuple):
                return ("lk", a[1], ("nis", a[2][1]) if a[2][0] == "is" else ("is", a[2][1]))
        return None

    def block(self, body, b, q, env):
        bl = body.blocks[b]
        rule = self.rule
        rel = body.path in self.relset
        for i, s in enumerate(bl["s"]):
            if s[0] == "=":
                self.assign(body, env, s[1], s[2])
            if rel:
                q = rule.stmt(body, b, i, s, q)
                if q is None:
                    return
        t = bl["t"]
        k = t[0]
        if k == "goto":
            yield (t[1], q, env)
        elif k == "ret":
            v = self._noln(env.get(0))
            yield ("ret", q, v)
        elif k == "drop":
            yield (t[2], q, env)
        elif k == "assert":
            yield (t[5], q, env)
        elif k == "switch":
            yield from self.switch(body, b, t, q, env)
        elif k == "call":
            if t[4] is None:
                r = rule.call(body, b, t, q)
                return
            for q2, env2 in self.docall(body, b, t, q, env):
                q3 = rule.after_call(body, b, t, q2)
                if q3 is not None:
                    yield (t[4], q3, env2)

    def switch(self, body, b, t, q, env):
        o = t[1]
        v = self.aval(body, env, o)
        isbool = t[4] == "bool"
        vals = [x[0] for x in t[2]]

        def emit(succ, e):
            q2 = self.rule.edge(body, b, succ, q, self)
            if q2 is not None:
                return [(succ, q2, e)]
            return []
        if v and v[0] in ("b", "i"):
            n = int(v[1])
            tgt = t[3]
            for x, s in t[2]:
                if x == n:
                    tgt = s
                    break
            yield from emit(tgt, env)
            return
        for x, s in t[2] + [[None, t[3]]]:
            if body.blocks[s]["t"][0] == "unreachable" and not body.blocks[s]["s"]:
                continue
            e = dict(env)
            if isbool:
                val = (x != 0) if x is not None else (0 in vals)
                if x is None and 0 not in vals:
                    val = False
                self.learn_bool(body, e, o, val)
            elif v and v[0] == "dl":
                mp = dict(v[2])
                if x is not None:
                    nm = mp.get(x)
                else:
                    rest = [nm for d, nm in v[2] if d not in vals]
                    nm = rest[0] if len(rest) == 1 else None
                if nm is not None:
                    self.learn_variant(e, v[1], nm)
            yield from emit(s, e)

    def learn_variant(self, e, key, nm):
        old = e.get(key)
        if old and old[0] == "v" and old[1] == nm:
            return
        if old and old[0] == "lk" and old[2] == "ref":
            self.learn_variant(e, old[1], nm)
            return
        e[key] = V(nm)

    def learn_bool(self, body, e, o, val):
        if o[0] not in "cm" or len(o[1]) != 1:
            return
        l = o[1][0]
        v = e.get(l)
        e[l] = B(val)
        n = 0
        while v and v[0] == "lk" and n < 10:
            n += 1
            tgt, how = v[1], v[2]
            if how == "bool":
                v = e.get(tgt)
                e[tgt] = B(val)
            elif how == "not":
                val = not val
                v = e.get(tgt)
                e[tgt] = B(val)
            elif isinstance(how, tuple):
                yes = (how[0] == "is") == val
                other = {"Some": "None", "None": "Some", "Ok": "Err", "Err": "Ok"}
                nm = how[1] if yes else other.get(how[1])
                if nm:
                    self.learn_variant(e, tgt, nm)
                break
            else:
                break

    # ---- calls ----
    PRED = {"Option::is_some": "Some", "Option::is_none": "None", "Result::is_ok": "Ok", "Result::is_err": "Err"}

    def docall(self, body, b, t, q, env):
        f = t[1]
        rule = self.rule
        rel = body.path in self.relset
        dest = t[3]

        def fin(q2, v, kill=True):
            e = dict(env)
            if kill:
                for kk in [kk for kk in e if isinstance(kk, str)]:
                    del e[kk]
            self.setp(body, e, dest, v)
            return (q2, e)
        if rel:
            r = rule.call(body, b, t, q)
            if r is not None:
                for q2, v in r:
                    yield fin(q2, v)
                return
        if "ind" in f:
            yield fin(q, None)
            return
        pn, rn = cname(f)
        av = [self.aval(body, env, a) for a in t[2]]
        # local callee(s)
        tg = self.cg.targets(f)
        if tg:
            anyrel = [x for x in tg if x.path in self.relset]
            if anyrel:
                done = False
                for x in tg:
                    if x.path in self.relset:
                        args = tuple((a if a and a[0] == "b" else None) for a in av)
                        for q2, v in self.summary(x, q, args):
                            yield fin(q2, v)
                            done = True
                if f.get("rk") == "virtual" and any(x.path not in self.relset for x in tg):
                    yield fin(q, None)
                return
            yield fin(q, None)
            return
        # closures handed to std
        cls = [c for c in f.get("cl", []) if c in self.relset]
        for a in t[2]:
            if a[0] == "k" and "fn" in a[1]:
                for x in self.cg.targets(a[1]["fn"]):
                    if x.path in self.relset and x.path not in cls:
                        cls.append(x.path)
        cbs = [x.path for x in self.cg.callbacks(f) if x.path in self.relset]
        qs = {q}
        if cls or cbs:
            # zero or more invocations
            work = [q]
            while work:
                cur = work.pop()
                for c in cls + cbs:
                    for q2, v in self.summary(self.crate.bodies[c], cur, ()):
                        if q2 not in qs:
                            qs.add(q2)
                            work.append(q2)
        for q2 in qs:
            for v in self.std(body, pn, rn, f, t, av, env):
                if isinstance(v, tuple) and len(v) and v[0] == "!split":
                    # value v[1] with learned variant
                    qq, e = fin(q2, v[1], kill=False)
                    self.learn_variant(e, v[2], v[3])
                    yield (qq, e)
                else:
                    yield fin(q2, v, kill=not self.pure(pn))

    PURE = ("Option::is_some", "Option::is_none", "Result::is_ok", "Result::is_err", "Deref::deref", "AsRef::as_ref",
            "Clone::clone", "Option::as_ref", "PartialEq::eq", "PartialEq::ne", "Vec::len", "Vec::is_empty", "String::is_empty", "str::is_empty",
            "RefCell::borrow", "ToOwned::to_owned", "Into::into", "From::from", "Try::branch", "Option::as_deref", "ToString::to_string")

    def pure(self, pn):
        return pn in self.PURE

    def argkey(self, t, i):
        a = t[2][i]
        if a[0] in "cm" and len(a[1]) == 1:
            return a[1][0]
        return None

    def std(self, body, pn, rn, f, t, av, env):
        a0 = av[0] if av else None
        l0 = self.argkey(t, 0) if t[2] else None
        # chase a reference link to the underlying local
        tgt = l0
        if a0 and a0[0] == "lk" and a0[2] == "ref":
            tgt = a0[1]
            a0 = env.get(tgt) if env.get(tgt) and env.get(tgt)[0] != "lk" else None
        if pn in self.PRED:
            want = self.PRED[pn]
            if a0 and a0[0] == "v":
                return [B(a0[1] == want)]
            if tgt is not None:
                return [("lk", tgt, ("is", want))]
            return [None]
        if pn == "Try::branch":
            if a0 and a0[0] == "v":
                if a0[1] in ("Ok", "Some"):
                    return [V("Continue", a0[2])]
                return [V("Break", V(a0[1], a0[2]))]
            st = f.get("self")
            isres = bool(st and st[0] == "adt" and st[1].endswith("Result"))
            good, bad = ("Ok", "Err") if isres else ("Some", "None")
            return [V("Continue"), V("Break", V(bad))]
        if pn == "FromResidual::from_residual":
            rt = body.local_ty(t[3][0]) if len(t[3]) == 1 else ""
            if rt.startswith("std::option::Option"):
                return [V("None")]
            return [V("Err", inner_of(a0) if a0 and a0[0] == "v" else None)]
        if pn in ("Option::ok_or", "Option::ok_or_else"):
            if a0 and a0[0] == "v":
                return [V("Ok", a0[2]) if a0[1] == "Some" else V("Err")]
            return [V("Ok"), V("Err")]
        if pn in ("Result::map_err",):
            if a0 and a0[0] == "v":
                return [V(a0[1], a0[2] if a0[1] == "Ok" else None)]
            return [None]
        if pn in ("Result::map", "Option::map"):
            if a0 and a0[0] == "v":
                return [V(a0[1], a0[2] if a0[1] == "Err" else None)]
            return [None]
        if pn == "Result::ok":
            if a0 and a0[0] == "v":
                return [V("Some", a0[2]) if a0[1] == "Ok" else V("None")]
            return [None]
        if pn in ("Option::unwrap", "Result::unwrap", "Option::expect", "Result::expect"):
            if a0 and a0[0] == "v" and a0[1] in ("Some", "Ok"):
                return [self._noln(a0[2])]
            return [None]
        if pn in ("Option::as_ref", "Option::as_deref", "Option::as_mut", "Option::as_deref_mut", "Option::cloned", "Option::copied",
                  "Deref::deref", "Into::into", "From::from", "Clone::clone", "Result::as_ref", "AsRef::as_ref"):
            if a0 and a0[0] in ("v", "b"):
                return [a0]
            if tgt is not None and pn.startswith("Option::as_") and pn != "Option::as_mut":
                return [("lk", tgt, "ref")]
            return [None]
        if pn == "Not::not" and a0 and a0[0] == "b":
            return [B(not a0[1])]
        return [None]


def place_locals(p):
    yield p[0]
    for e in p[1:]:
        if isinstance(e, list) and e[0] == "i":
            yield e[1]


def rv_ops(r):
    k = r[0]
    if k in ("use", "repeat"):
        yield r[1]
    elif k == "bin":
        yield r[2]
        yield r[3]
    elif k in ("un", "cast"):
        yield r[2]
    elif k == "agg":
        yield from r[5]


def rv_places(r):
    k = r[0]
    if k == "ref":
        yield r[2]
    elif k == "raw":
        yield r[1]
    elif k == "disc":
        yield r[1]


def term_ops(t):
    k = t[0]
    if k == "switch":
        yield t[1]
    elif k == "call":
        yield from t[2]
        if "ind" in t[1]:
            yield t[1]["ind"]
        if len(t[3]) > 1:
            yield ["c", t[3]]
    elif k == "assert":
        yield t[1]
        yield from t[4]
    elif k == "drop":
        yield ["c", t[1]]
