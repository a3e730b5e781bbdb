"""Access paths and interprocedural write/read effects.

An access path is (root, fields): root = ('param', i) | ('fresh',) | ('static', p)
and fields = tuple of "Type.field" components, outermost first.  Effects of a
body are access paths rooted at its parameters, substituted at call sites; local
temporaries ('fresh') carry no effect.
"""
from names import short, short_ty
from terms import cname, TRANSPARENT

ELEM = {
    "Option::unwrap", "Option::expect", "Option::unwrap_or", "Option::unwrap_or_default", "Result::unwrap", "Result::expect", "Option::unwrap_or_else",
    "Iterator::next", "IntoIterator::into_iter", "[T]::iter", "[T]::iter_mut", "HashMap::get", "HashMap::get_mut",
    "HashMap::iter", "HashMap::iter_mut", "HashMap::values", "HashMap::values_mut", "HashMap::keys", "HashMap::entry", "HashMap::get_key_value",
    "[T]::get", "[T]::get_mut", "[T]::last", "[T]::last_mut", "[T]::first", "[T]::first_mut", "Index::index", "IndexMut::index_mut",
    "Iterator::rev", "Iterator::enumerate", "Iterator::skip", "Iterator::take", "Iterator::peekable", "Iterator::filter", "Iterator::find", "Iterator::filter_map",
    "Iterator::last", "Iterator::nth", "DoubleEndedIterator::next_back", "Try::branch", "Option::ok_or", "Option::ok_or_else", "Weak::upgrade", "Rc::downgrade",
    "Peekable::peek", "Entry::or_insert", "Entry::or_insert_with", "Entry::or_default", "Result::ok", "Result::map_err", "Rc::get_mut", "Rc::make_mut",
    "Option::get_or_insert_with", "Option::insert", "Option::filter", "Iterator::by_ref", "str::chars", "BTreeMap::get", "BTreeMap::get_mut",
    "serde_json::Value::as_array", "Value::as_array", "Value::as_object", "Value::get", "Map::get", "Map::iter", "Chain::next", "Iterator::chain",
    "Option::or_else", "Option::or", "Option::and_then", "Option::map", "Ref::map", "RefMut::map", "Option::as_slice", "BTreeMap::entry", "Option::iter", "Map::get_mut", "Value::as_array_mut", "Value::as_object_mut",
    "Rc::downcast", "Any::downcast_ref", "dyn Any::downcast_ref", "Downcast::downcast_ref", "Result::unwrap_or", "Vec::iter", "Vec::iter_mut",
}
# external calls that take &mut but only project (the write happens later through the result)
PROJ_ONLY = {
    "Option::as_mut", "DerefMut::deref_mut", "AsMut::as_mut", "HashMap::get_mut", "HashMap::iter_mut", "HashMap::values_mut", "[T]::iter_mut", "[T]::get_mut",
    "[T]::last_mut", "[T]::first_mut", "IndexMut::index_mut", "RefCell::get_mut", "Rc::get_mut", "Option::as_deref_mut", "BTreeMap::get_mut", "Iterator::next", "Iterator::by_ref", "Map::get_mut", "Value::as_array_mut", "Value::as_object_mut",
    "Peekable::peek", "IntoIterator::into_iter", "Iterator::find", "Iterator::position", "Iterator::any", "Iterator::all", "Iterator::nth", "Iterator::for_each", "RefMut::map",
}
INTERIOR = {"Cell::set", "RefCell::replace", "Cell::replace", "Cell::take", "RefCell::take", "OnceCell::set", "OnceCell::get_or_init", "RefCell::swap", "RefCell::replace_with"}

MAXLEN = 7


def short_adt(a):
    # "value_type::ValueType::String" -> keep enum variant payloads distinct
    parts = a.split("::")
    if len(parts) >= 2 and parts[-2][:1].isupper():
        return parts[-2] + "::" + parts[-1]
    return parts[-1]


def squash(f):
    f = tuple(x for x in f if not x.startswith((".", "Option::", "Result::", "ControlFlow::")))
    # cut repeated cycles
    out = []
    for x in f:
        if x in out:
            out = out[: out.index(x) + 1]
        else:
            out.append(x)
    return tuple(out[-MAXLEN:]) if len(out) > MAXLEN else tuple(out)


class Effects:
    def __init__(self, crate, cg, T):
        self.crate, self.cg, self.T = crate, cg, T
        self.retsum = {}
        self.ret_inprog = set()
        self._w = None

    # ---- access paths of a term ----
    def apath(self, t, body=None, depth=0):
        """set of (root, fields)"""
        if depth > 60:
            return {(("?",), ())}
        k = t[0]
        if k == "param":
            return {(("param", t[1]), ())}
        if k == "field":
            ad = short_adt(t[2]) if t[2] else ""
            c = f"{ad}.{t[3]}"
            return {(r, squash(f + (c,))) for r, f in self.apath(t[1], body, depth + 1)}
        if k in ("down", "elem"):
            return self.apath(t[1], body, depth + 1)
        if k == "idx":
            return self.apath(t[1], body, depth + 1)
        if k == "phi":
            out = set()
            for u in t[1]:
                out |= self.apath(u, body, depth + 1)
            return out
        if k == "static":
            return {(("static", t[1]), ())}
        if k == "outer":
            return {(("outer", t[1], r), f) for r, f in self.apath(t[2], body, depth + 1)}
        if k == "call":
            nm = t[1]
            if nm in ELEM or nm.split("::")[-1] in ("next", "into_iter"):
                if t[2]:
                    return self.apath(t[2][0], body, depth + 1)
            # local callee: substitute its return origin
            site = t[3]
            f = self.call_at(site)
            if f is not None:
                tg = self.cg.targets(f)
                if tg:
                    out = set()
                    for x in tg:
                        for r, fl in self.ret_origin(x):
                            if r[0] == "param":
                                i = r[1] - 1
                                if i < len(t[2]):
                                    for r2, f2 in self.apath(t[2][i], body, depth + 1):
                                        out.add((r2, squash(f2 + fl)))
                            else:
                                out.add((("fresh",), ()))
                    return out or {(("fresh",), ())}
            return {(("fresh",), ())}
        if k == "upvar":
            return {(("upvar", t[1], t[2]), ())}
        return {(("fresh",), ())}

    def call_at(self, site):
        b = self.crate.bodies.get(site[0]) or getattr(self.crate, "inl", {}).get(site[0])
        if b is None:
            return None
        t = b.blocks[site[1]]["t"]
        return t[1] if t[0] == "call" else None

    def ret_origin(self, body):
        if body.path in self.retsum:
            return self.retsum[body.path]
        if body.path in self.ret_inprog:
            return set()
        rt = body.local_ty(0)
        # only reference-like or Rc-like or Option of those can alias
        self.ret_inprog.add(body.path)
        t = self.T.ret(body)
        r = {(a, f) for a, f in self.apath(t, body) if a[0] in ("param",)}
        owned_scalar = rt in ("bool", "usize", "i32", "()", "f32", "std::string::String")
        if owned_scalar:
            r = set()
        self.ret_inprog.discard(body.path)
        self.retsum[body.path] = r
        return r

    # ---- direct write events of a body ----
    def direct_writes(self, body):
        """list of (block, idx, term-of-target, what)"""
        out = []
        for b in sorted(body.reach):
            bl = body.blocks[b]
            for i, s in enumerate(bl["s"]):
                if s[0] == "=" and len(s[1]) > 1:
                    if "*" in s[1][1:]:
                        out.append((b, i, self.T.place(body, s[1], (b, i)), "store", s[3]))
            t = bl["t"]
            if t[0] == "call":
                f = t[1]
                if len(t[3]) > 1 and "*" in t[3][1:]:
                    out.append((b, "T", self.T.place(body, t[3], (b, len(bl["s"]))), "store", t[5]))
                if "ind" in f:
                    continue
                if self.cg.targets(f):
                    continue
                pn, rn = cname(f)
                if pn in PROJ_ONLY or pn in TRANSPARENT or rn in TRANSPARENT:
                    continue
                for ai, a in enumerate(t[2]):
                    if a[0] in "cm":
                        ty = body.local_ty(a[1][0]) if len(a[1]) == 1 else ""
                        if ty.startswith("&mut ") or ty.startswith("std::cell::RefMut<"):
                            out.append((b, "T", self.T.op(body, a, (b, len(bl["s"]))), pn, t[5]))
                        elif ai == 0 and pn in INTERIOR:
                            out.append((b, "T", self.T.op(body, a, (b, len(bl["s"]))), pn, t[5]))
        return out

    def writes(self):
        """body path -> set of (root, fields) with root a param (or outer/upvar for closures)"""
        if self._w is not None:
            return self._w
        W = {}
        direct = {}
        for b in self.crate.bodies.values():
            s = set()
            for (_, _, t, what, _) in self.direct_writes(b):
                for r, f in self.apath(t, b):
                    if r[0] in ("param", "outer", "upvar", "static"):
                        s.add((r, f))
            direct[b.path] = s
            W[b.path] = set(s)
        # call edges with argument paths
        edges = {}
        for b in self.crate.bodies.values():
            es = []
            for blk, t in b.calls():
                for callee, amap in self.call_bindings(b, blk, t):
                    es.append((callee, amap))
            edges[b.path] = es
        changed = True
        while changed:
            changed = False
            for p, es in edges.items():
                cur = W[p]
                n0 = len(cur)
                for callee, amap in es:
                    for r, f in list(W.get(callee, ())):
                        for r2, f2 in self.subst(r, f, amap, p):
                            if r2[0] in ("param", "outer", "upvar", "static"):
                                cur.add((r2, f2))
                if len(cur) != n0:
                    changed = True
        self._w = W
        return W

    def subst(self, r, f, amap, parent):
        if r[0] == "param":
            for r2, f2 in amap.get(r[1], ()):
                yield (r2, squash(f2 + f))
        elif r[0] == "outer":
            if r[1] == parent:
                yield (r[2], f)
            else:
                yield (r, f)
        elif r[0] == "static":
            yield (r, f)

    def call_bindings(self, body, blk, t):
        """[(callee path, {param index: set of access paths})] for a call terminator, closures included"""
        f = t[1]
        out = []
        if "ind" in f:
            return out
        pos = (blk, len(body.blocks[blk]["s"]))
        tg = self.cg.targets(f)
        if tg:
            amap = {}
            for i, a in enumerate(t[2]):
                amap[i + 1] = self.apath(self.T.op(body, a, pos), body)
            for x in tg:
                out.append((x.path, amap))
            # a closure passed to a local fn: its captures are still this frame's
            for c in f.get("cl", []):
                if c in self.crate.bodies and c not in [x.path for x in tg]:
                    out.append((c, {}))
            return out
        cls = list(f.get("cl", []))
        for c in cls:
            cb = self.crate.bodies.get(c)
            if cb is None:
                continue
            amap = {}
            if t[2]:
                a0 = self.apath(self.T.op(body, t[2][0], pos), body)
                off = 2 if cb.kind == "Closure" else 1
                for i in range(off, cb.nargs + 1):
                    amap[i] = a0
            out.append((c, amap))
        for x in self.cg.callbacks(f):
            amap = {}
            for i, a in enumerate(t[2]):
                amap[i + 1] = self.apath(self.T.op(body, a, pos), body)
            if x.path.endswith("::hash"):
                amap.pop(2, None)       # the hasher is the library's own
            out.append((x.path, amap))
        return out

    def writes_at(self, body):
        """block -> list of (idx, root, fields, what, line) over direct writes and callee effects"""
        key = "_wat"
        if hasattr(body, key):
            return getattr(body, key)
        W = self.writes()
        out = {}
        for (b, i, t, what, ln) in self.direct_writes(body):
            for r, f in self.apath(t, body):
                out.setdefault(b, []).append((i, r, f, what, ln))
        for blk, t in body.calls():
            for callee, amap in self.call_bindings(body, blk, t):
                for r, f in W.get(callee, ()):
                    for r2, f2 in self.subst(r, f, amap, body.path):
                        out.setdefault(blk, []).append(("T", r2, f2, short(callee), t[5]))
        setattr(body, key, out)
        return out


if __name__ == "__main__":
    import sys
    from facts import World
    from terms import Terms
    from callgraph import CallGraph
    w = World(sys.argv[1])
    c = w.crates[sys.argv[2]]
    cg = CallGraph(c)
    T = Terms(c)
    E = Effects(c, cg, T)
    W = E.writes()
    for b in c.fns():
        if short(b.path).endswith(sys.argv[3]):
            print(short(b.path))
            for r, f in sorted(W[b.path], key=str):
                print("   ", r, " / ".join(f))
