"""Value reconstruction over MIR: what expression does an operand hold here?

Terms are nested tuples:
  ('param', i, name)            argument i of the body (1-based local index)
  ('upvar', closure, name)      captured variable that could not be resolved
  ('const', ty, v)              constant; v may be None
  ('fn', short)                 function item
  ('closure', path)             closure value
  ('static', path)
  ('field', base, adt, name)    adt is the full path (with ::Variant for enums)
  ('down', base, variant)       enum payload view
  ('idx', base, t)              indexing
  ('call', short, args, site)   result of a call, site=(body path, block)
  ('clone', t)                  deep clone (not Rc)
  ('bin', op, a, b) ('un', op, a) ('cast', ty, a) ('disc', t, adt)
  ('agg', kind, adt, variant, ((name, t), ...))
  ('phi', (t, ...))             several reaching definitions
  ('rec', l)  ('?',)
"""
import sys
from names import short, short_ty
from facts import callee_path

sys.setrecursionlimit(20000)

# result is (a view of) argument 0
TRANSPARENT = {
    "Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut",
    "Option::as_ref", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut",
    "RefCell::borrow", "RefCell::borrow_mut", "RefCell::get_mut", "Borrow::borrow", "String::as_str",
    "Vec::as_slice", "Vec::as_mut_slice", "Result::as_ref", "Result::as_mut",
    "Cell::as_ptr", "String::as_mut_str", "ManuallyDrop::deref", "Pin::get_mut",
    "AsAny::as_any", "AsAny::as_any_mut", "IntoAny::into_any", "Rc::as_ref", "Box::as_ref",
    "hint::must_use", "must_use",
}
# owned conversion that keeps the value
VALUE_ID = {
    "ToOwned::to_owned", "Into::into", "From::from", "Option::cloned", "Option::copied",
    "Rc::new", "Box::new", "RefCell::new", "Cell::new", "String::from", "ToString::to_string", "Cow::into_owned",
    "Box::pin", "String::into_boxed_str", "RefCell::into_inner", "Cell::get", "str::to_owned", "str::to_string", "String::clone",
    "OnceCell::from",
}


def cname(f):
    """short declared name and short resolved name of a callee dict"""
    p = f.get("p")
    r = f.get("r") or p
    return (short(p) if p else "?"), (short(r) if r else "?")


class Terms:
    def __init__(self, crate):
        self.crate = crate
        self.memo = {}
        self._cap = None
        self.opaque = set()

    # ---- reaching definitions ----
    def reaching(self, body, l, b, i):
        """definitions of local l reaching the point before statement i of block b.
        Returns a list of ('param',) | (blk, idx|'T', kind, payload)."""
        alld = body.defs.get(l, [])
        if not alld:
            return [("param",)] if 0 < l <= body.nargs else []
        if len(alld) == 1 and not (0 < l <= body.nargs):
            return alld
        byblk = {}
        for d in alld:
            byblk.setdefault(d[0], []).append(d)
        # within block b before i
        best = None
        for d in byblk.get(b, []):
            if d[1] != "T" and d[1] < i:
                if best is None or d[1] > best[1]:
                    best = d
        if best is not None:
            return [best]
        out = []
        seen = set()
        st = list(body.preds[b])
        if b == 0 and 0 < l <= body.nargs:
            out.append(("param",))
        while st:
            x = st.pop()
            if x in seen or x not in body.reach:
                continue
            seen.add(x)
            ds = byblk.get(x)
            if ds:
                t = [d for d in ds if d[1] == "T"]
                if t:
                    out.append(t[0])
                else:
                    out.append(max(ds, key=lambda d: d[1]))
                continue
            if x == 0 and 0 < l <= body.nargs:
                out.append(("param",))
            st.extend(body.preds[x])
        return out

    # ---- terms ----
    def op(self, body, o, pos):
        if o[0] in "cm":
            return self.place(body, o[1], pos)
        c = o[1]
        if "closure" in c:
            return ("closure", c["closure"])
        if "fn" in c:
            return ("fn", short(c["fn"].get("r") or c["fn"]["p"]))
        if "static" in c:
            return ("static", c["static"])
        if "promoted" in c:
            pb = self.crate.bodies.get(f"{c['named']}::{{promoted#{c['promoted']}}}")
            if pb is None:
                # path of parent may differ by prefix
                cand = [b for p, b in self.crate.bodies.items() if p == f"{body.path}::{{promoted#{c['promoted']}}}"]
                pb = cand[0] if cand else None
            if "v" in c:
                return ("const", c["ty"], c["v"])
            if pb is not None:
                return self.ret(pb)
        if "named" in c and "v" not in c:
            return ("const", c.get("ty"), "named:" + c["named"])
        return ("const", c.get("ty"), c.get("v"))

    def local(self, body, l, pos):
        key = (body.path, l, pos)
        if key in self.memo:
            r = self.memo[key]
            return r if r is not None else ("rec", l)
        self.memo[key] = None
        ds = self.reaching(body, l, *pos)
        ts = []
        for d in ds:
            if d[0] == "param":
                t = self.param(body, l)
            else:
                t = self.defterm(body, d)
            if t not in ts:
                ts.append(t)
        if not ts:
            r = ("?",)
        elif len(ts) == 1:
            r = ts[0]
            if r[0] == "agg" and r[3] == "Some" and any(d[0] != "param" and not body.dominates(d[0], pos[0]) for d in ds) and has_elem(r):
                # kept from an earlier round of the loop, seen after the first round was split off
                r = ("phi", (("agg", "adt", r[2], "None", ()), r))
        else:
            flat = []
            for t in ts:
                for u in (t[1] if t[0] == "phi" else (t,)):
                    if u not in flat:
                        flat.append(u)
            flat2 = [u for u in flat if u != ("rec", l)] or flat
            r = ("phi", tuple(flat2)) if len(flat2) > 1 else flat2[0]
        self.memo[key] = r
        return r

    def param(self, body, l):
        return ("param", l, body.local_name(l) or f"_{l}")

    def defterm(self, body, d):
        key = (body.path, "def", d[0], d[1])
        if key in self.memo:
            r = self.memo[key]
            return r if r is not None else ("rec", -1)
        self.memo[key] = None
        b, i, kind, pl = d
        if kind == "=":
            r = self.rvalue(body, pl, (b, i))
        else:
            r = self.callterm(body, b, pl)
        self.memo[key] = r
        return r

    def callterm(self, body, b, t):
        pos = (b, len(body.blocks[b]["s"]))
        f = t[1]
        if "ind" in f:
            args = tuple(self.op(body, a, pos) for a in t[2])
            return ("call", "<indirect>", args, (body.path, b))
        pn, rn = cname(f)
        if pn in TRANSPARENT or rn in TRANSPARENT:
            return self.op(body, t[2][0], pos)
        if pn == "Clone::clone":
            a = self.op(body, t[2][0], pos)
            if rn.startswith("<Rc as") or rn.startswith("<Weak as"):
                return a
            if f.get("local"):
                return ("clone", a)
            st = f.get("self")
            if st and st[0] == "adt" and short_ty(st[1]) in ("Option",) and st[2] and st[2][0][0] == "adt" and short_ty(st[2][0][1]) in ("Rc", "Weak"):
                return a
            return ("clone", a)
        if pn == "Try::branch" and len(t[2]) == 1:
            a = self.op(body, t[2][0], pos)
            return ("call", "Try::branch", (a,), (body.path, b))
        if (pn in VALUE_ID or rn in VALUE_ID) and len(t[2]) >= 1 and not f.get("local"):
            return self.op(body, t[2][0], pos)
        args = tuple(self.op(body, a, pos) for a in t[2])
        nm = rn if f.get("local") or pn == rn else pn
        if f.get("local"):
            nm = rn
        return ("call", nm, args, (body.path, b))

    def rvalue(self, body, r, pos):
        k = r[0]
        if k == "use":
            return self.op(body, r[1], pos)
        if k in ("ref",):
            return self.place(body, r[2], pos)
        if k == "raw":
            return self.place(body, r[1], pos)
        if k == "bin":
            return ("bin", r[1].replace("WithOverflow", ""), self.op(body, r[2], pos), self.op(body, r[3], pos))
        if k == "un":
            return ("un", r[1], self.op(body, r[2], pos))
        if k == "cast":
            if r[1].startswith("PointerCoercion") or r[1].startswith("Transmute"):
                return self.op(body, r[2], pos)
            return ("cast", "trunc " + r[3] if r[1].startswith("FloatToInt") else r[3], self.op(body, r[2], pos))
        if k == "disc":
            return ("disc", self.place(body, r[1], pos), r[2])
        if k == "agg":
            names = r[4]
            ops = [self.op(body, o, pos) for o in r[5]]
            if len(names) != len(ops):
                names = [str(i) for i in range(len(ops))]
            if r[1] == "closure":
                return ("closure", r[2])
            return ("agg", r[1], r[2], r[3], tuple(zip(names, ops)))
        if k == "elem":
            return ("elem", self.op(body, r[1], pos))
        if k == "repeat":
            return ("agg", "array", "", "", (("0", self.op(body, r[1], pos)),))
        return ("?",)

    def place(self, body, p, pos):
        l = p[0]
        # partial definitions of exactly this place prefix
        base = self.local(body, l, pos)
        t = base
        projs = p[1:]
        for n, e in enumerate(projs):
            if e == "*":
                continue
            if e[0] == "f":
                if e[3].startswith("closure:"):
                    t = self.upvar(body, e[3][8:], e[2], int(e[1]))
                    continue
                # overwritten fields of a local aggregate
                extra = self.partials(body, l, p[: n + 2], pos)
                t = self.proj_field(t, e[3], e[2], e[1])
                if extra:
                    alls = [t] + extra
                    t = ("phi", tuple(dict.fromkeys(alls)))
            elif e[0] == "d":
                t = self.proj_down(t, e[1])
            elif e[0] == "i":
                t = ("idx", t, self.local(body, e[1], pos))
            elif e[0] == "c":
                t = ("idx", t, ("const", "usize", (-e[1] if e[3] else e[1])))
            elif e[0] == "ss":
                t = ("idx", t, ("const", "range", f"{e[1]}..{'-' if e[3] else ''}{e[2]}"))
        return t

    def partials(self, body, l, pref, pos):
        out = []
        for (b, i, pl, rv) in body.partial_defs.get(l, ()):
            if pl == pref and "*" not in pl[1:]:
                # only for owned locals (not through refs)
                key = (body.path, "part", b, i)
                if key in self.memo:
                    if self.memo[key] is not None:
                        out.append(self.memo[key])
                    continue
                self.memo[key] = None
                if i == "T":
                    tt = self.callterm(body, b, rv)
                else:
                    tt = self.rvalue(body, rv, (b, i))
                self.memo[key] = tt
                out.append(tt)
        return out

    def proj_field(self, t, adt, name, idx):
        if adt in self.opaque:
            # keep the field's identity instead of looking into how the struct was built
            return ("field", ("obj", adt), adt, name)
        if t[0] == "agg":
            for n, v in t[4]:
                if n == name or n == str(idx):
                    return v
        if t[0] == "phi":
            rs = tuple(dict.fromkeys(self.proj_field(u, adt, name, idx) for u in t[1]))
            return rs[0] if len(rs) == 1 else ("phi", rs)
        if t[0] == "bin" and adt == "":
            # (value, overflowed) pair of checked arithmetic
            return t if str(idx) == "0" else ("overflow", t)
        if t[0] == "down":
            # payload of Some/Ok/Continue etc.
            inner = t[1]
            if inner[0] == "call" and inner[1] == "Try::branch" and t[2] == "Continue":
                return self.succ(inner[2][0], name)
        return ("field", t, adt, name)

    def succ(self, t, name, depth=0):
        """payload of a value known to be Ok/Some"""
        if t[0] == "agg" and t[3] in ("Ok", "Some") and t[4]:
            return t[4][0][1]
        if depth < 12:
            if t[0] == "phi":
                us = [u for u in t[1] if not (u[0] == "agg" and u[3] in ("Err", "None") or u[0] == "call" and u[1] == "FromResidual::from_residual")]
                if us and len(us) < len(t[1]):
                    rs = tuple(dict.fromkeys(self.succ(u, name, depth + 1) for u in us))
                    return rs[0] if len(rs) == 1 else ("phi", rs)
            if t[0] == "call" and t[1] in ("Option::ok_or", "Option::ok_or_else", "Result::map_err") and t[2] and t[2][0][0] in ("agg", "phi"):
                return self.succ(t[2][0], name, depth + 1)
        return ("field", ("down", t, "OkSome"), "", name)

    def proj_down(self, t, v):
        if t[0] == "agg" and t[3] == v:
            return t
        if t[0] == "phi" and not (v == "Some" and kept_best(t)):
            m = [u for u in t[1] if not (u[0] == "agg" and u[3] != v or v in ("Ok", "Some") and u[0] == "call" and u[1] == "FromResidual::from_residual")]
            rs = tuple(dict.fromkeys(self.proj_down(u, v) for u in m))
            if rs:
                return rs[0] if len(rs) == 1 else ("phi", rs)
        return ("down", t, v)

    # ---- closures ----
    def captures(self):
        if self._cap is None:
            self._cap = {}
            for b in self.crate.bodies.values():
                for blk in b.reach:
                    for i, s in enumerate(b.blocks[blk]["s"]):
                        if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "closure":
                            self._cap[s[2][2]] = (b, blk, i, s[2])
        return self._cap

    def upvar(self, body, cl, name, idx):
        c = None
        if hasattr(body, "orig"):
            if not hasattr(body, "_caps"):
                body._caps = {}
                for blk in body.reach:
                    for i, s in enumerate(body.blocks[blk]["s"]):
                        if s[0] == "=" and s[2][0] == "agg" and s[2][1] == "closure":
                            body._caps[s[2][2]] = (body, blk, i, s[2])
            c = body._caps.get(cl)
        c = c or self.captures().get(cl)
        if c is None:
            return ("upvar", cl, name)
        pb, blk, i, rv = c
        key = ("upv", pb.path, cl, idx)
        if key in self.memo:
            r = self.memo[key]
            return r if r is not None else ("upvar", cl, name)
        self.memo[key] = None
        t = self.op(pb, rv[5][idx], (blk, i))
        # the captured term lives in the parent's frame
        if pb is not body:
            t = ("outer", pb.path, t)
        self.memo[key] = t
        return t

    def ret(self, body):
        """term of the return value over all exits"""
        ts = []
        for b in body.exits:
            t = self.local(body, 0, (b, len(body.blocks[b]["s"])))
            for u in (t[1] if t[0] == "phi" else (t,)):
                if u not in ts:
                    ts.append(u)
        if not ts:
            return ("?",)
        return ts[0] if len(ts) == 1 else ("phi", tuple(ts))

    def arg(self, body, b, k):
        t = body.blocks[b]["t"]
        return self.op(body, t[2][k], (b, len(body.blocks[b]["s"])))

    def args(self, body, b):
        t = body.blocks[b]["t"]
        return [self.op(body, a, (b, len(body.blocks[b]["s"]))) for a in t[2]]


# ---------- term utilities ----------
def walk(t):
    """all subterms"""
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        k = x[0]
        if k in ("field", "down", "clone", "disc", "overflow", "elem"):
            st.append(x[1])
        elif k in ("cast",):
            st.append(x[2])
        elif k == "idx":
            st.append(x[1])
            st.append(x[2])
        elif k == "call":
            st.extend(x[2])
        elif k == "bin":
            st.append(x[2])
            st.append(x[3])
        elif k == "un":
            st.append(x[2])
        elif k == "agg":
            st.extend(v for _, v in x[4])
        elif k == "phi":
            st.extend(x[1])
        elif k == "outer":
            st.append(x[2])


def show(t, d=0):
    if d > 14:
        return "…"
    k = t[0]
    s = lambda x: show(x, d + 1)
    if k == "param":
        return t[2]
    if k == "const":
        import json
        return json.dumps(t[2]) if t[2] is not None else f"<{t[1]}>"
    if k == "field":
        return f"{s(t[1])}.{t[3]}"
    if k == "down":
        return f"{s(t[1])}@{t[2]}"
    if k == "idx":
        return f"{s(t[1])}[{s(t[2])}]"
    if k == "call":
        return f"{t[1]}({', '.join(s(a) for a in t[2])})"
    if k == "clone":
        return f"clone({s(t[1])})"
    if k == "elem":
        return f"each({s(t[1])})"
    if k == "bin":
        return f"({s(t[2])} {t[1]} {s(t[3])})"
    if k == "un":
        return f"{t[1]}({s(t[2])})"
    if k == "cast":
        return f"({s(t[2])} as {t[1]})"
    if k == "disc":
        return f"disc({s(t[1])})"
    if k == "agg":
        nm = short_ty(t[2]) if t[2] else t[1]
        return f"{nm}{'::' + t[3] if t[3] else ''}{{{', '.join(n + ': ' + s(v) for n, v in t[4])}}}"
    if k == "phi":
        return "φ(" + " | ".join(s(a) for a in t[1]) + ")"
    if k == "outer":
        return "^" + s(t[2])
    if k in ("fn", "closure", "static"):
        return f"{k}:{t[1]}"
    if k == "overflow":
        return f"ovf({s(t[1])})"
    return str(t)


def kept_best(t):
    """nothing yet, or something met while going over a collection: not the thing now being looked at"""
    some = [u for u in t[1] if u[0] != "rec" and not (u[0] == "agg" and u[3] == "None")]
    return any(u[0] == "agg" and u[3] == "None" for u in t[1]) and len(some) == 1 and some[0][0] == "agg" and some[0][3] == "Some" and has_elem(some[0])


def has_elem(t, d=0):
    if not isinstance(t, tuple) or d > 30:
        return False
    return bool(t) and (t[0] == "elem" or t[0] == "call" and t[1] == "Iterator::next" or any(has_elem(x, d + 1) for x in t))


def strip_sites(t):
    """term without call-site identities (for structural comparison)"""
    k = t[0]
    if k == "call":
        return ("call", t[1], tuple(strip_sites(a) for a in t[2]))
    if k in ("field",):
        return ("field", strip_sites(t[1]), t[2], t[3])
    if k == "down":
        return ("down", strip_sites(t[1]), t[2])
    if k == "disc":
        return ("disc", strip_sites(t[1]))
    if k in ("clone", "overflow", "elem"):
        return (k, strip_sites(t[1]))
    if k == "cast":
        return ("cast", t[1], strip_sites(t[2]))
    if k == "idx":
        return ("idx", strip_sites(t[1]), strip_sites(t[2]))
    if k == "bin":
        return ("bin", t[1], strip_sites(t[2]), strip_sites(t[3]))
    if k == "un":
        return ("un", t[1], strip_sites(t[2]))
    if k == "agg":
        return ("agg", t[1], t[2], t[3], tuple((n, strip_sites(v)) for n, v in t[4]))
    if k == "phi":
        return ("phi", tuple(strip_sites(a) for a in t[1]))
    if k == "outer":
        return ("outer", t[1], strip_sites(t[2]))
    return t


if __name__ == "__main__":
    from facts import World
    w = World(sys.argv[1])
    for c in w.crates.values():
        T = Terms(c)
        for b in c.fns():
            if short(b.path).endswith(sys.argv[2]):
                print("==", short(b.path), b.file, b.line)
                for blk in b.rpo:
                    bl = b.blocks[blk]
                    for i, s in enumerate(bl["s"]):
                        if s[0] == "=" and ("*" in s[1][1:] or len(s[1]) > 1):
                            print(f"  {s[3]}: STORE {show(T.place(b, s[1], (blk, i)))} := {show(T.rvalue(b, s[2], (blk, i)))}")
                    t = bl["t"]
                    if t[0] == "call":
                        pn, rn = cname(t[1]) if "ind" not in t[1] else ("ind", "ind")
                        if pn in TRANSPARENT or pn in VALUE_ID or pn in ("Try::branch", "FromResidual::from_residual"):
                            continue
                        print(f"  {t[5]}: CALL {rn}({', '.join(show(x) for x in T.args(b, blk))})")
                    elif t[0] == "switch":
                        print(f"  {t[5]}: SWITCH {show(T.op(b, t[1], (blk, len(bl['s']))))}")
                print("  RET", show(T.ret(b)))
