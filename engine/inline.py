"""Splices callees (and closures handed to std) into a copy of a MIR body.

By default only functions that are not in the committed list of known function
names are spliced, so that a helper someone extracts is analysed as part of the
function it was extracted from.  A rule can ask for more.
"""

import re

from facts import Body, term_succ
from names import short
from terms import cname

MAXBLOCKS = 9000


def _pl(p, m):
    out = [m(p[0])]
    for e in p[1:]:
        if isinstance(e, list) and e[0] == "i":
            out.append(["i", m(e[1])])
        else:
            out.append(e)
    return out


def _op(o, m):
    return [o[0], _pl(o[1], m)] if o[0] in "cm" else o


def _rv(r, m):
    k = r[0]
    if k in ("use", "repeat"):
        return [k, _op(r[1], m)] + r[2:]
    if k == "ref":
        return ["ref", r[1], _pl(r[2], m)] + r[3:]
    if k == "raw":
        return ["raw", _pl(r[1], m)] + r[2:]
    if k == "bin":
        return ["bin", r[1], _op(r[2], m), _op(r[3], m)]
    if k == "un":
        return ["un", r[1], _op(r[2], m)]
    if k == "cast":
        return ["cast", r[1], _op(r[2], m)] + r[3:]
    if k == "disc":
        return ["disc", _pl(r[1], m)] + r[2:]
    if k == "agg":
        return r[:5] + [[_op(o, m) for o in r[5]]] + r[6:]
    return r


def _st(s, m):
    if s[0] == "=":
        return ["=", _pl(s[1], m), _rv(s[2], m)] + s[3:]
    return s


def _term(t, m, bo):
    """bo maps block ids"""
    k = t[0]
    if k == "goto":
        return ["goto", bo(t[1])] + t[2:]
    if k == "switch":
        return ["switch", _op(t[1], m), [[v, bo(x)] for v, x in t[2]], bo(t[3])] + t[4:]
    if k == "call":
        f = t[1]
        if "ind" in f:
            f = dict(f)
            f["ind"] = _op(f["ind"], m)
        uw = t[6] if len(t) > 6 else None
        return ["call", f, [_op(a, m) for a in t[2]], _pl(t[3], m), bo(t[4]) if t[4] is not None else None, t[5], None]
    if k == "assert":
        return ["assert", _op(t[1], m), t[2], t[3], [_op(a, m) for a in t[4]], bo(t[5])] + t[6:7] + t[7:8] + [None]
    if k == "drop":
        return ["drop", _pl(t[1], m), bo(t[2])] + t[3:]
    return t


def _params(ty, out):
    if isinstance(ty, list):
        if len(ty) == 2 and ty[0] == "param":
            out.add(ty[1])
        for x in ty:
            _params(x, out)


def instance(callee, f):
    """substitution of the callee's one type parameter at this call"""
    ga = [g for g in f.get("ga", []) if not g.startswith("'")]
    if len(ga) != 1:
        return None
    ps = getattr(callee, "tparams", None)
    if ps is None:
        ps = set()
        for l in callee.locals:
            _params(l[2] if len(l) > 2 else None, ps)
        callee.tparams = ps
    ps = {p for p in ps if not p.startswith("impl ") and p != "Self"}
    if len(ps) != 1 or ga[0] in ps:
        return None
    r = re.compile(r"\b%s\b" % re.escape(next(iter(ps))))
    return lambda s: r.sub(lambda _: ga[0], s)


def thread(blocks, live):
    """a loop test of a flag whose value the way in has just set is skipped"""
    refd = set()
    for bi in live:
        for s in blocks[bi]["s"]:
            if s[0] == "=" and s[2][0] in ("ref", "raw"):
                p = s[2][2] if s[2][0] == "ref" else s[2][1]
                refd.add(p[0])
    preds = {}
    for bi in live:
        for x in term_succ(blocks[bi]["t"]):
            preds.setdefault(x, []).append(bi)
    # targets of back edges
    col, heads = {}, set()
    st = [(0, iter(term_succ(blocks[0]["t"])))]
    col[0] = 1
    while st:
        b, it = st[-1]
        for x in it:
            if x not in col:
                col[x] = 1
                st.append((x, iter(term_succ(blocks[x]["t"]))))
                break
            if col[x] == 1:
                heads.add(x)
        else:
            col[b] = 2
            st.pop()
    for h in heads:
        t = blocks[h]["t"]
        if t[0] != "switch" or t[1][0] not in "cm" or len(t[1][1]) != 1:
            continue
        l, neg, tmp, ok = t[1][1][0], False, set(), True
        for s in reversed(blocks[h]["s"]):
            if s[0] != "=":
                continue
            if s[1] != [l] or s[2][0] not in ("use", "un") or s[2][0] == "un" and s[2][1] != "Not":
                ok = False
                break
            o = s[2][1] if s[2][0] == "use" else s[2][2]
            if o[0] not in "cm" or len(o[1]) != 1:
                ok = False
                break
            tmp.add(l)
            l = o[1][0]
            neg ^= s[2][0] == "un"
        if not ok or l in refd or [v for v, _ in t[2]] != [0]:
            continue
        for p in list(preds.get(h, ())):
            b, last, n = p, h, 0
            val = None
            while n < 40:
                n += 1
                d = None
                bt = blocks[b]["t"]
                if bt[0] == "call" and bt[3][:1] == [l]:
                    break
                for s in reversed(blocks[b]["s"]):
                    if s[0] == "=" and s[1][:1] == [l]:
                        d = s
                        break
                if d is not None:
                    if d[1] == [l] and d[2][0] == "use" and d[2][1][0] == "k" and isinstance(d[2][1][1].get("v"), bool):
                        val = d[2][1][1]["v"]
                    break
                ps = [x for x in preds.get(b, ()) if x in live]
                if len(ps) != 1 or b == h:
                    break
                b = ps[0]
            if val is None:
                continue
            to = t[2][0][1] if not (val ^ neg) else t[3]
            retarget(blocks[p], h, to)
            preds[h].remove(p)
            preds.setdefault(to, []).append(p)


def reachable(blocks):
    seen, st = {0}, [0]
    while st:
        for x in term_succ(blocks[st.pop()]["t"]):
            if x not in seen:
                seen.add(x)
                st.append(x)
    return seen


def lower(blocks, locs, live):
    """swap, replace and take are the moves they stand for"""
    defs = {}
    for bi in live:
        for s in blocks[bi]["s"]:
            if s[0] == "=" and len(s[1]) == 1:
                defs.setdefault(s[1][0], []).append(s[2])
        t = blocks[bi]["t"]
        if t[0] == "call" and len(t[3]) == 1:
            defs.setdefault(t[3][0], []).append(None)

    def place(o):
        """what the reference handed over points to"""
        if o[0] not in "cm":
            return None
        p = list(o[1])
        l = p[0]
        for _ in range(12):
            d = defs.get(l, [])
            if len(d) != 1 or d[0] is None or len(p) != 1:
                break
            rv = d[0]
            if rv[0] == "use" and rv[1][0] in "cm" and len(rv[1][1]) == 1:
                l = rv[1][1][0]
                p = [l]
            elif rv[0] == "ref" and len(rv[2]) == 1:
                return [rv[2][0]]
            elif rv[0] == "ref" and rv[2][1:] == ["*"]:
                l = rv[2][0]
                p = [l]
            else:
                break
        return [l, "*"] if len(p) == 1 else list(o[1]) + ["*"]

    def none(ty):
        return ["agg", "adt", "std::option::Option", "None", [], []]
    # vec![..]: a box filled in place and turned into a vector
    fills = {}
    for bi in live:
        for i, s in enumerate(blocks[bi]["s"]):
            if s[0] == "=" and len(s[1]) > 2 and s[1][1] == "*" and s[2][0] == "agg" and s[2][1] == "array" and str(s[1][-1][3]).endswith("ManuallyDrop"):
                l = s[1][0]
                for _ in range(6):
                    d = defs.get(l, [])
                    if len(d) != 1 or d[0] is None:
                        break
                    o = d[0][1] if d[0][0] == "use" else d[0][2] if d[0][0] == "cast" else None
                    if o is None or o[0] not in "cm":
                        break
                    l = o[1][0]
                fills[l] = (bi, i)
    for bi in sorted(live):
        t = blocks[bi]["t"]
        if t[0] != "call" or "ind" in t[1] or t[4] is None or len(t[3]) != 1:
            continue
        pn = cname(t[1])[0]
        line = t[5]
        if pn == "boxed::box_assume_init_into_vec_unsafe" and t[2][0][0] in "cm":
            l = t[2][0][1][0]
            while l not in fills:
                d = defs.get(l, [])
                if len(d) != 1 or d[0] is None or d[0][0] != "use" or d[0][1][0] not in "cm":
                    break
                l = d[0][1][1][0]
            if l in fills:
                fb, fi = fills[l]
                fs = list(blocks[fb]["s"])
                if fs[fi][2][0] == "agg":
                    tmp = len(locs)
                    locs.append(["[]", "", None])
                    fs[fi] = ["=", [tmp], fs[fi][2], fs[fi][3]]
                    blocks[fb]["s"] = fs
                    blocks[bi]["s"] = blocks[bi]["s"] + [["=", t[3], ["use", ["m", [tmp]]], line]]
                    blocks[bi]["t"] = ["goto", t[4]]
            continue
        if pn in ("mem::replace", "Option::replace") and len(t[2]) == 2:
            p = place(t[2][0])
            second = [["=", p, ["use", t[2][1]], line]]
            first = [["=", t[3], ["use", ["m", p]], line]]
            if pn == "Option::replace":
                second = [["=", p, ["agg", "adt", "std::option::Option", "Some", ["0"], [t[2][1]]], line]]
        elif pn == "Option::take" and len(t[2]) == 1:
            p = place(t[2][0])
            first = [["=", t[3], ["use", ["m", p]], line]]
            second = [["=", p, none(None), line]]
        elif pn == "mem::swap" and len(t[2]) == 2:
            p, q = place(t[2][0]), place(t[2][1])
            if p is None or q is None:
                continue
            if len(p) == 1:
                p, q = q, p
            tmp = len(locs)
            locs.append(list(locs[q[0]]) if len(q) == 1 else ["?", "", None])
            first = [["=", [tmp], ["use", ["m", p]], line]]
            second = [["=", p, ["use", ["m", q]], line], ["=", q, ["use", ["m", [tmp]]], line]]
        else:
            continue
        if p is None:
            continue
        n = len(blocks)
        blocks.append({"s": second, "t": ["goto", t[4]], "cl": None, "o": blocks[bi]["o"]})
        blocks[bi]["s"] = blocks[bi]["s"] + first
        blocks[bi]["t"] = ["goto", n]


def retarget(bl, a, b):
    t = list(bl["t"])
    k = t[0]
    if k == "goto":
        t[1] = b
    elif k == "switch":
        t[2] = [[v, b if x == a else x] for v, x in t[2]]
        t[3] = b if t[3] == a else t[3]
    elif k == "call":
        t[4] = b if t[4] == a else t[4]
    elif k == "assert":
        t[5] = b if t[5] == a else t[5]
    elif k == "drop":
        t[2] = b if t[2] == a else t[2]
    bl["t"] = t


class Inliner:
    def __init__(self, crate, cg, known):
        self.crate, self.cg, self.known = crate, cg, known
        self.memo = {}
        crate.inl = getattr(crate, "inl", {})

    def is_known(self, body):
        return short(body.path) in self.known

    def default(self, body):
        """splice functions that are not in the known list"""
        return not self.is_known(body)

    def get(self, body, want=None, tag="", closures=True):
        """inlined copy of body; want(callee Body)->bool adds to the default"""
        key = (body.path, tag, closures)
        if key in self.memo:
            return self.memo[key]
        dec = (lambda x: self.default(x) or want(x)) if want else self.default
        nb = self.build(body, dec, closures, f"{body.path}!{tag or 'inl'}")
        self.memo[key] = nb
        self.crate.inl[nb.path] = nb
        return nb

    def build(self, body, dec, closures, newpath):
        locs = [list(l) for l in body.locals]
        blocks = [{"s": list(b["s"]), "t": b["t"], "cl": b.get("cl"), "o": body} for b in body.blocks]
        stack = {i: (body.path,) for i in range(len(blocks))}
        live = set(body.reach)
        work = sorted(live)
        done = set()
        self.overflowed = False

        def closure_of(loc, depth=0):
            """closure path held by a local (through moves and refs)"""
            if depth > 8:
                return None
            ty = locs[loc]
            r = None
            for bi in range(len(blocks)):
                for s in blocks[bi]["s"]:
                    if s[0] == "=" and s[1] == [loc]:
                        rv = s[2]
                        if rv[0] == "agg" and rv[1] == "closure":
                            r = rv[2]
                        elif rv[0] == "use" and rv[1][0] in "cm" and len(rv[1][1]) == 1:
                            r = closure_of(rv[1][1][0], depth + 1)
                        elif rv[0] == "ref" and len([e for e in rv[2][1:] if e != "*"]) == 0:
                            r = closure_of(rv[2][0], depth + 1)
                        elif rv[0] == "use" and rv[1][0] == "k" and "closure" in rv[1][1]:
                            r = rv[1][1]["closure"]
            return r

        def splice(bi, callee, args, dest, target, line, stk, sub=None):
            off_l = len(locs)
            off_b = len(blocks)
            for l in callee.locals:
                locs.append(list(l))
            m = lambda l: l + off_l
            bo = lambda b: b + off_b
            for i, cb in enumerate(callee.blocks):
                t = cb["t"]
                nt = _term(t, m, bo)
                if sub and nt[0] == "call" and nt[1].get("ga"):
                    nt[1] = dict(nt[1], ga=[sub(g) for g in nt[1]["ga"]])
                s = [_st(x, m) for x in cb["s"]]
                if t[0] == "ret":
                    if dest is not None:
                        s.append(["=", dest, ["use", ["m", [m(0)]]], line])
                    nt = ["goto", target] if target is not None else ["unreachable"]
                blocks.append({"s": s, "t": nt, "cl": cb.get("cl"), "o": cb.get("o", callee)})
                stack[off_b + i] = stk + (callee.path,)
                if i in callee.reach:
                    work.append(off_b + i)
            for i, a in enumerate(args):
                if a is not None and i < callee.nargs:
                    blocks[bi]["s"].append(["=", [m(i + 1)], a, line])
            return off_b

        while work:
            bi = work.pop()
            if bi in done:
                continue
            done.add(bi)
            if len(blocks) > MAXBLOCKS:
                self.overflowed = True
                break
            t = blocks[bi]["t"]
            if t[0] != "call" or "ind" in t[1]:
                continue
            f = t[1]
            stk = stack[bi]
            # direct call of a closure value
            pn = cname(f)[0]
            if pn in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once") and len(t[2]) == 2 and t[2][0][0] in "cm" and len(t[2][0][1]) == 1:
                cp = closure_of(t[2][0][1][0]) or (f.get("r") if f.get("r") in self.crate.bodies else None)
                cb = self.crate.bodies.get(cp) if cp else None
                if cb is not None and cp not in stk and t[4] is not None:
                    args = [["use", t[2][0]]]
                    tup = t[2][1]
                    for k in range(cb.nargs - 1):
                        if tup[0] in "cm":
                            args.append(["use", ["c", tup[1] + [["f", k, str(k), ""]]]])
                        else:
                            args.append(None)
                    e = splice(bi, cb, args, t[3], t[4], t[5], stk)
                    blocks[bi]["t"] = ["goto", e]
                    continue
            tg = self.cg.targets(f)
            if len(tg) == 1 and f.get("rk") != "virtual" and tg[0].path not in stk and dec(tg[0]) and len(stk) < 14:
                callee = tg[0]
                args = [["use", a] for a in t[2]]
                e = splice(bi, callee, args, t[3], t[4], t[5], stk, instance(callee, f))
                blocks[bi]["t"] = ["goto", e]
                continue
            if tg:
                continue
            if closures:
                cls = []
                for ai, a in enumerate(t[2]):
                    cp = None
                    if a[0] in "cm" and len(a[1]) == 1:
                        cp = closure_of(a[1][0])
                    elif a[0] == "k" and "closure" in a[1]:
                        cp = a[1]["closure"]
                    elif a[0] == "k" and "fn" in a[1]:
                        x = self.cg.targets(a[1]["fn"])
                        if len(x) == 1 and dec(x[0]):
                            cp = x[0].path
                    if cp and cp in self.crate.bodies and cp not in stk:
                        cls.append((ai, a, self.crate.bodies[cp]))
                if cls:
                    # bi: ...; goto H    H: any -> closure | X    X: call
                    H = len(blocks)
                    blocks.append({"s": [], "t": None, "cl": None, "o": blocks[bi]["o"]})
                    stack[H] = stk
                    done.add(H)
                    X = len(blocks)
                    blocks.append({"s": [], "t": t, "cl": None, "o": blocks[bi]["o"]})
                    stack[X] = stk
                    done.add(X)
                    ent = []
                    for ai, a, cb in cls:
                        E = len(blocks)
                        blocks.append({"s": [], "t": None, "cl": None, "o": blocks[bi]["o"]})
                        stack[E] = stk
                        done.add(E)
                        isclosure = cb.kind == "Closure" or "{closure#" in cb.path.split("::")[-1]
                        base = t[2][0] if ai != 0 else None
                        args = ([["use", a]] if isclosure else []) + [(["elem", base] if base is not None else None)] * 8
                        rl = len(locs)
                        locs.append([cb.local_ty(0), "", None])
                        e = splice(E, cb, args[: cb.nargs], [rl], H, t[5], stk)
                        blocks[E]["t"] = ["goto", e]
                        ent.append(E)
                    blocks[bi]["t"] = ["goto", H]
                    blocks[H]["t"] = ["switch", ["k", {"ty": "closure?", "v": None}], [[i, x] for i, x in enumerate(ent)], X, "closure?", t[5]]
        lower(blocks, locs, reachable(blocks))
        thread(blocks, reachable(blocks))
        d = {"path": newpath, "kind": body.kind, "pub": body.pub, "file": body.file, "line": body.line, "nargs": body.nargs,
             "locals": locs, "upv": body.upv, "impl_self": body.impl_self, "impl_trait": body.impl_trait, "trait_item": body.trait_item, "blocks": blocks}
        nb = Body(d, self.crate)
        nb.orig = body
        nb.overflowed = self.overflowed
        return nb
