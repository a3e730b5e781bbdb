"""Abstract text of a formatted string: literals and holes.

part = ("lit", s) | ("esc", t) | ("json", t) | ("int", t) | ("raw", t)
     | ("rep", sep, [shapes])      joined list
     | ("weak", [shapes])          pieces appended in an order not reconstructed
"""
from terms import walk, strip_sites, show, cname

INT = {"usize", "u32", "i32", "u64", "i64", "u8", "isize", "u16", "i16"}


def decode_template(s):
    """rustc's packed format template -> list of str | None (argument)"""
    out = []
    i = 0
    b = s
    n = len(b)
    raw = b.encode("latin-1", "replace") if all(ord(c) < 256 for c in b) else None
    if raw is None:
        return None
    while i < n:
        c = raw[i]
        if c == 0:
            break
        if c < 0x80:
            out.append(raw[i + 1:i + 1 + c].decode("utf-8", "replace"))
            i += 1 + c
        elif c == 0x80:
            ln = raw[i + 1] | raw[i + 2] << 8
            out.append(raw[i + 3:i + 3 + ln].decode("utf-8", "replace"))
            i += 3 + ln
        elif c == 0xC0:
            out.append(None)
            i += 1
        else:
            # placeholder with options
            i += 1
            if c & 1:
                i += 4
            if c & 2:
                i += 2
            if c & 4:
                i += 2
            if c & 8:
                i += 2
            out.append(None)
    return out


class Shaper:
    def __init__(self, A, ib, is_escape):
        self.A, self.ib, self.is_escape = A, ib, is_escape
        self.muts = None

    def site_call(self, site):
        b = self.A.crate.bodies.get(site[0]) or self.A.crate.inl.get(site[0])
        return b.blocks[site[1]]["t"]

    def mutations(self, body):
        """object term -> [(rpo index, block, method, arg term)]"""
        if not hasattr(body, "_muts"):
            body._muts = {}
            for k, blk in enumerate(body.rpo):
                t = body.blocks[blk]["t"]
                if t[0] == "call" and "ind" not in t[1]:
                    pn, rn = cname(t[1])
                    nm = rn if rn in MUT else pn
                    if nm in MUT and len(t[2]) == 2:
                        o, a = self.A.T.args(body, blk)
                        body._muts.setdefault(o, []).append((k, blk, nm, a))
        return body._muts

    def shape(self, t, body=None, depth=0):
        body = body or self.ib
        if depth > 40:
            return [("raw", t)]
        k = t[0]
        if k == "const":
            if isinstance(t[2], str):
                return [("lit", t[2])]
            if isinstance(t[2], int):
                return [("lit", str(t[2]))]
            return [("raw", t)]
        if k == "phi":
            alts = [self.shape(u, body, depth + 1) for u in t[1]]
            if all(a == alts[0] for a in alts):
                return alts[0]
            return [("alt", alts)]
        if k in ("clone",):
            return self.shape(t[1], body, depth + 1)
        if k == "down" or (k == "field" and t[2] in ("",)):
            u = t
            while u[0] in ("down", "field") and not (u[0] == "field" and u[2]):
                u = u[1]
            if u[0] == "call" and u[1] in ("serde_json::to_string", "ser::to_string", "to_string"):
                return [("json", u[2][0])]
            if u is not t and u[0] == "call":
                pass
            return [("raw", t)]
        if k == "call":
            n, args, site = t[1], t[2], t[3]
            last = n.split("::")[-1]
            if n in ("fmt::format", "fmt::format::format_inner", "format::format", "Arguments::as_str"):
                return self.shape(args[0], body, depth + 1)
            if n.startswith("Arguments::new") or n == "Arguments::from_str":
                if args[0][0] == "const" and isinstance(args[0][2], str):
                    if len(args) == 1:
                        return [("lit", args[0][2])]
                    tm = decode_template(args[0][2])
                    if tm is None:
                        return [("raw", t)]
                    holes = [v for _, v in args[1][4]] if args[1][0] == "agg" else []
                    out = []
                    hi = 0
                    for p in tm:
                        if p is None:
                            out += self.shape(holes[hi], body, depth + 1) if hi < len(holes) else [("raw", t)]
                            hi += 1
                        else:
                            out.append(("lit", p))
                    return out
            if n in ("Argument::new_display",):
                c = self.site_call(site)
                ga = [g.replace("&", "").strip() for g in c[1].get("ga", [])]
                if any(g in INT for g in ga):
                    return [("int", args[0])]
                return self.shape(args[0], body, depth + 1)
            if n.startswith("Argument::new_lower_hex") or n.startswith("Argument::new_upper_hex"):
                return [("int", args[0])]
            if n in ("Option::unwrap", "Result::unwrap", "Result::expect", "Option::expect"):
                return self.shape(args[0], body, depth + 1)
            if last == "to_string" and n not in ("ToString::to_string",) and "json" in self.callee_path(site):
                return [("json", args[0])]
            if self.is_escape(n):
                return [("esc", args[0])]
            if n == "str::replace" and args[1][0] == "const" and args[2][0] == "const":
                s = self.shape(args[0], body, depth + 1)
                if len(s) == 1 and s[0][0] == "lit":
                    a = args[1][2]
                    a = chr(a) if isinstance(a, int) else a
                    return [("lit", s[0][1].replace(a, args[2][2]))]
                return [("raw", t)]
            if last in ("join", "concat"):
                sep = args[1][2] if len(args) > 1 and args[1][0] == "const" else ""
                el = self.elements(args[0], body, depth + 1)
                if el is not None:
                    return [("rep", sep, el)]
                return [("raw", t)]
            if n == "Iterator::collect":
                el = self.elements(args[0], body, depth + 1)
                if el is not None:
                    return [("rep", "", el)]
            if n in ("String::new", "String::with_capacity"):
                ms = self.mutations(body).get(t, [])
                loops = [l for l in body.loops.values() if site[0] == body.path and site[1] not in l]
                pieces = []
                weak = False
                for (_, blk, nm, a) in ms:
                    pieces.append(self.shape(a, body, depth + 1))
                    if any(blk in l for l in loops) or self.A.G.block(body, blk) != self.A.G.block(body, site[1]):
                        weak = True
                if weak:
                    return [("weak", pieces)]
                return [x for p in pieces for x in p]
            c = self.site_call(site)
            f = c[1]
            tg = self.A.cg.targets(f) if "ind" not in f else []
            if len(tg) == 1:
                cal = self.A.crate.inl.get(tg[0].path + "!inl") or tg[0]
                # a pure text helper: its parameters become the arguments
                r = self.A.T.ret(cal)
                r = subst(r, {i + 1: a for i, a in enumerate(args)})
                if all(x[0] != "call" or not self.A.cg.targets(self.site_call(x[3])[1]) for x in walk(r) if x[0] == "call" and x[3] == site):
                    return self.shape(r, body, depth + 10)
        return [("raw", t)]

    def callee_path(self, site):
        c = self.site_call(site)
        return (c[1].get("r") or c[1].get("p") or "") if "ind" not in c[1] else ""

    def elements(self, t, body, depth):
        """shapes of the elements of an iterator/Vec term, or None"""
        if depth > 40:
            return None
        k = t[0]
        if k == "call":
            n, args, site = t[1], t[2], t[3]
            last = n.split("::")[-1]
            if n == "Iterator::map" and args[1][0] == "closure":
                cb = self.A.crate.bodies[args[1][1]]
                return [self.shape(self.A.T.ret(cb), cb, depth + 1)]
            if n in ("Iterator::collect", "IntoIterator::into_iter", "Iterator::by_ref", "Iterator::rev", "Iterator::enumerate", "Iterator::skip", "Iterator::filter", "Vec::as_slice", "[T]::to_vec", "[T]::iter"):
                return self.elements(args[0], body, depth + 1)
            if n == "Iterator::chain":
                a = self.elements(args[0], body, depth + 1)
                b = self.elements(args[1], body, depth + 1)
                return a + b if a is not None and b is not None else None
            if n in ("Vec::new", "Vec::with_capacity"):
                ms = self.mutations(body).get(t, [])
                out = []
                for (_, blk, nm, a) in ms:
                    if nm == "Vec::push":
                        out.append(self.shape(a, body, depth + 1))
                    else:
                        return None
                return out
        if k == "agg" and t[1] == "array":
            return [self.shape(v, body, depth + 1) for _, v in t[4]]
        return None


MUT = {"Vec::push", "String::push_str", "String::push", "Vec::extend", "Vec::insert"}


def subst(t, m):
    k = t[0]
    if k == "param":
        return m.get(t[1], t)
    if k == "call":
        return ("call", t[1], tuple(subst(a, m) for a in t[2]), t[3])
    if k == "field":
        return ("field", subst(t[1], m), t[2], t[3])
    if k == "down":
        return ("down", subst(t[1], m), t[2])
    if k in ("clone", "overflow", "elem"):
        return (k, subst(t[1], m))
    if k == "disc":
        return ("disc", subst(t[1], m), t[2])
    if k == "cast":
        return ("cast", t[1], subst(t[2], m))
    if k == "idx":
        return ("idx", subst(t[1], m), subst(t[2], m))
    if k == "bin":
        return ("bin", t[1], subst(t[2], m), subst(t[3], m))
    if k == "un":
        return ("un", t[1], subst(t[2], m))
    if k == "agg":
        return t[:4] + (tuple((n, subst(v, m)) for n, v in t[4]),)
    if k == "phi":
        return ("phi", tuple(subst(a, m) for a in t[1]))
    return t


def raws(shape):
    for p in shape:
        if p[0] == "raw":
            yield p[1]
        elif p[0] == "rep":
            for s in p[2]:
                yield from raws(s)
        elif p[0] in ("weak", "alt"):
            for s in p[1]:
                yield from raws(s)


def holes(shape):
    """(kind, term, inside) for every hole"""
    for p in shape:
        if p[0] in ("raw", "esc", "json", "int"):
            yield p[0], p[1]
        elif p[0] == "rep":
            for s in p[2]:
                yield from holes(s)
        elif p[0] in ("weak", "alt"):
            for s in p[1]:
                yield from holes(s)


def has_weak(shape):
    return any(p[0] == "weak" or (p[0] == "rep" and any(has_weak(s) for s in p[2])) or (p[0] == "alt" and any(has_weak(s) for s in p[1])) for p in shape)


def samples(shape, lim=24):
    """concrete witnesses of the abstract text (escaped text -> x, number -> 0)"""
    outs = [""]
    for p in shape:
        if p[0] == "lit":
            add = [p[1]]
        elif p[0] == "esc":
            add = ["x\\n"]
        elif p[0] == "json":
            add = ['"x"']
        elif p[0] == "int":
            add = ["0"]
        elif p[0] == "rep":
            el = [s for e in p[2] for s in samples(e, 4)]
            add = [""] + el[:4] + [p[1].join([a, b]) for a in el[:2] for b in el[:2]]
        elif p[0] == "alt":
            add = [s for e in p[1] for s in samples(e, 4)]
        else:
            add = ["\x01RAW"]
        outs = [o + a for o in outs for a in add][:lim]
    return outs
