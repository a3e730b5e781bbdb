"""C19: the path reported for an object leads back to it; paths survive text; equal paths hash equally; saved positions read back."""
import re

import contract
from common import Q
from eff import Eff, callers, contracts, fields_of, fresh, writers

CACHE = r"Object\.path"
DIGITS = r"^str::parse<usize>\((.*)\)\?$"


def hashed(A, name, ctx, rid):
    """fields of p1 handed to the hasher"""
    b = contract.keys(A).get(name)
    ctx.expect(rid, b is not None, f"anchor:{name}", f"{name} not found")
    out = set()
    if b is None:
        return out
    ib = A.I.get(b, lambda x: False, "hash") if False else b
    for i in ib.reach:
        t = ib.blocks[i]["t"]
        if t[0] == "call" and isinstance(t[1], dict) and t[1].get("p", "").endswith("::hash"):
            term = A.E.T.op(ib, t[2][0], (i, len(ib.blocks[i]["s"])))
            for x in contract.walk(term):
                if x[0] == "field" and len(x) > 3 and "::" in x[2] and not x[2].startswith("std::"):
                    out.add(x[3])
    return out


def check(ctx):
    q = Q(ctx)
    A = fresh(ctx.world.A["bladeink"])
    X = ctx.expect
    AD, FI, OW, TX, EQ, PO, UN, CT = "address", "find", "ownership", "text", "equality", "position", "unique", "contracts"
    ctx.rule(AD, "an object's path is, from the root down, the name of each named container on the way and otherwise the index at which its parent holds it")
    ctx.rule(FI, "a path component finds exactly the child whose address it is: an index its entry of the content, a name the named child, ^ the parent; a path is followed to its end or called approximate")
    ctx.rule(OW, "a child's parent is the container that holds it, set once when that container is built; content never changes afterwards; an address is only remembered once it was computed")
    ctx.rule(TX, "text and components correspond: components joined by dots, a leading dot iff relative, digits an index and everything else a name")
    ctx.rule(EQ, "equality compares relativity and every component; hashing uses nothing else")
    ctx.rule(PO, "a position is written as container path plus index and read back as the same container and index")
    ctx.rule(UN, "the compiler lets no name be taken for an index and no gather name occur twice where it is addressed by it")
    ctx.rule(CT, "the functions that make, print, parse, compare and follow paths do so under the reviewed conditions")

    # address
    E = q.need("Object::get_path", AD)
    if E:
        nm = E.when("^local push$", r"^Component\{index:None, name:dc<Container>")
        ix = [(v, f) for t, v, f in E.sites("^local push$") if "position" in contract.full(v) and f]
        q.occurs(AD, E, nm, "name", "no component is ever a name")
        X(AD, bool(ix), "index", "no component is ever an index", E.at)
        named = E.lit(r"^dc<Container>\(.*\)\.name\?$")
        empty = E.lit(r"^empty\(dc<Container>\(.*\)\.name\)$")
        q.implies(AD, E, nm, "name:named", "a container without a name is addressed by one", named)
        q.never(AD, E, E.B.AND(nm, empty), "name:empty", "a container with an empty name is addressed by it")
        for v, f in ix:
            v = contract.full(v)
            q.never(AD, E, E.B.AND(f, nm), "index:named", "a container is addressed by its name and its index")
            X(AD, re.search(r"Iterator::position\(.*\.content", v) is not None and re.search(r"\(p2 as \*const \(\)\) == \(|ptr_eq\(|ptr::eq\(", v) is not None, "index:identity", f"the index is not the place of the same object in its parent: {v[:200]}", E.at)
        q.occurs(AD, E, E.when("^local reverse$"), "order", "the components are not turned root first")
        cached = E.lit(r"^RTObject::get_object\(p1\)\.path\?$")
        q.never(AD, E, E.B.AND(E.when(rf"^(mut|set) {CACHE}"), cached), "cache", "a remembered address is computed again")
        for t, v, f in E.sites(rf"^(mut|set) {CACHE}"):
            rel = fields_of(v).get("is_relative", "")
            X(AD, "True" not in rel, "absolute", f"an object's address is relative: {v[:120]}", E.at)
    # find
    E = q.need("Container::content_with_path_component", FI)
    if E:
        isx = E.lit(r"^p2\.index\?$")
        for t, v, f in E.sites("^return$"):
            v = contract.full(v)
            if v == "None":
                continue
            if v.startswith("p1.content["):
                X(FI, v == "p1.content[p2.index]", "index:value", f"an index finds {v}", E.at)
                q.implies(FI, E, f, "index", "content is found by index for a name", isx)
            elif "named_content" in v:
                X(FI, re.fullmatch(r"p1\.named_content\[p2\.name\]", v) is not None, "name:value", f"a name finds {v}", E.at)
                q.never(FI, E, E.B.AND(f, isx), "name", "a named child is found for an index")
            elif "parent" in v:
                q.implies(FI, E, f, "parent", "the parent is found for something else than ^", E.lit(r'^p2\.name == "\^"$'))
            else:
                ctx.fail(FI, f"other:{v[:60]}", f"a component finds {v[:160]}", E.at)
        lt = E.lit(r"^p2\.index < Vec::len\(p1\.content\)$")
        # (what it finds past the end is nothing: an index that is not checked first is a place where it could panic, C14)
        q.implies(FI, E, E.B.AND(isx, lt), "index:all", "not every entry of the content is found by its index", E.when("^return$", r"^p1\.content\["))
        par = E.lit(r'^p2\.name == "\^"$')
        q.implies(FI, E, E.B.AND(E.lit(r"^p1\.named_content\[p2\.name\]\?$"), E.B.AND(E.B.NOT(isx), E.B.NOT(par))), "name:all", "not every named child is found by its name", E.when("^return$", r"^p1\.named_content\["))
    E = q.need("Container::content_at_path", FI)
    if E:
        r = E.sites("^return$")
        X(FI, len(r) == 1 and fields_of(r[0][1]).get("approximate", "").replace(" ", "") in ("φ{False|True}",), "approximate", f"the search does not tell whether it got to the end: {[v[:120] for _, v, _ in r]}", E.at)

    # ownership
    q.subset(OW, callers(A, "Object::set_parent"), {"Container::new"}, "parent", "a parent is set outside the container's construction by")
    q.subset(OW, writers(A, r"Object\.parent"), {"Object::set_parent", "Container::new"}, "parent-write", "a parent is changed by")
    q.subset(OW, writers(A, rf"^(set|mut) {CACHE}"), {"Object::get_path"}, "cache-write", "the remembered address is changed by")
    q.subset(OW, writers(A, r"^(set|mut) Container\."), set(), "content-write", "the content of a container is changed by")
    E = q.need("Container::new", OW)
    if E:
        sp = E.sites("^call Object::set_parent$|^(set|mut) Object.parent")
        got = " ".join(contract.full(v) for _, v, f in sp if f == 1)
        X(OW, re.search(r"get_object\(each\(p3\)\)", got) is not None, "parent:content", "not every entry of the content gets its parent", E.at)
        X(OW, re.search(r"each\(p4\)\.1(\.obj|\))", got) is not None, "parent:named", "not every named child gets its parent", E.at)
        ins = [(v, f) for t, v, f in E.sites(r"^mut p4 insert$")]
        X(OW, bool(ins), "named:all", "named content is not addressable by name", E.at)
        for v, f in ins:
            X(OW, re.fullmatch(r"dc<Container>\(each\(p3\)\)\.name, dc<Container>\(each\(p3\)\)", contract.full(v)) is not None, "named:key", f"named content is entered as {v}", E.at)
            want = E.B.AND(E.lit(r"^dc<Container>\(each\(p3\)\)\?$"), E.B.AND(E.lit(r"^dc<Container>\(each\(p3\)\)\.name\?$"), E.lit(r"!^empty\(dc<Container>\(each\(p3\)\)\.name\)$")))
            q.same(OW, E, f, want, "named:when", "a named child of the content is not entered exactly when it has a name")
        for t, v, f in E.sites("^return$"):
            g = fields_of(v)
            for k, w in (("name", "p1"), ("content", "p3"), ("named_content", "p4")):
                X(OW, g.get(k) == w, f"keeps:{k}", f"a container's {k} is {g.get(k)}", E.at)
    for fn in ("json_read::jarray_to_container", "json_read_stream::jarray_to_container"):
        E = q.need(fn, OW)
        if E:
            v = " ".join(contract.full(v) for _, v, f in E.sites("^call Container::new$") if f)
            X(OW, "p2," in v or "p2, " in v, f"given:{fn}", f"{fn} does not name a container as it is told to", E.at)
    E = q.need("json_read::jarray_to_container", OW)
    if E:
        for t, v, f in E.sites("^local insert$"):
            v = contract.full(v)
            m = re.match(r"(each\(.*?\)\.0), dc<Container>\(json_read::jtoken_to_runtime_object\((.*)\)\)$", v)
            X(OW, m is not None and v.count(".0") >= 2, "named-only", f"a named-only child is entered as {v[:200]}", E.at)

    # text
    E = q.need("Path::new_with_components_string", TX)
    if E:
        for t, v, f in E.sites("^local push$"):
            g = fields_of(v)
            dig = E.lit(r"^str::parse<usize>\(each\(str::split\(.*\)\)\)\?$")
            if g.get("index") == "None":
                q.never(TX, E, E.B.AND(f, dig), "name:digits", "digits become a name")
                X(TX, re.match(r'^each\(str::split\(.*,"\."\)\)$', g.get("name", "")) is not None, "name:value", f"a name component becomes {g.get('name')}", E.at)
            else:
                q.implies(TX, E, f, "index:digits", "something else than digits becomes an index", dig)
                X(TX, g.get("name") == "None" and g.get("index", "").startswith("str::parse<usize>(each("), "index:value", f"an index component becomes {v[:100]}", E.at)
        at = [contract.full(a) for a in E.B.names]
        vals = " ".join(contract.full(v) for _, v, _ in E.sites(""))
        X(TX, "RangeFrom{start:1}" in vals, "strip", "the leading dot stays in the first component", E.at)
        rel = [fields_of(v).get("is_relative", "") for t, v, f in E.sites("^return$")]
        X(TX, any("True" in r for r in rel), "relative", "a leading dot does not make a path relative", E.at)
    E = q.need("Path::get_components_string", TX)
    if E:
        v = " ".join(contract.full(t + " " + v) for t, v, _ in E.sites(""))
        X(TX, v.count('"."') >= 2 and "components" in v and "p1.is_relative" in v, "print", "components are not joined by dots with a leading dot for relative paths", E.at)
    E = q.need("<Component as Display>::fmt", TX)
    if E:
        v = " ".join(contract.full(v) for t, v, _ in E.sites("^io "))
        X(TX, "p1.index" in v and "p1.name" in v, "component", f"a component prints as {v[:120]}", E.at)

    # equality
    E = q.need("<Path as PartialEq>::eq", EQ)
    if E:
        s = " ".join(contract.full(n) for n in E.B.names) + " ".join(contract.full(v) for _, v, _ in E.sites("")) 
        X(EQ, "p1.is_relative" in s and "p2.is_relative" in s, "eq:relative", "equality ignores whether a path is relative", E.at)
        X(EQ, "p1.components" in s and "p2.components" in s, "eq:components", "equality ignores the components", E.at)
        no = E.when("^return$", "^False$")
        if no and E.S and "each(p1.components)" in s:
            q.implies(EQ, E, E.lit("!^each\\(p[12].components\\) == each\\(p[12].components\\)$"), "eq:each", "paths are equal although components differ", no)
    for n, want in (("<Path as Hash>::hash", {"is_relative", "components"}), ("<Component as Hash>::hash", {"index", "name"})):
        h = hashed(A, n, ctx, EQ)
        X(EQ, bool(h), f"hash:{n}", f"{n} hashes nothing")
        q.subset(EQ, h, want, n, f"{n} also hashes")

    # positions
    E = q.need("Pointer::get_path", PO)
    if E:
        neg = E.lit(r"^p1\.index < 0$")
        for t, v, f in E.sites("^return$"):
            v = contract.full(v)
            if v == "None":
                q.implies(PO, E, f, "null", "a position has no path", "!^p1\\.container\\?$")
            elif v == "Container::get_path(p1.container)":
                q.implies(PO, E, f, "container", "the index is left out of the path", neg)
        ix = E.when("^local push$", r"^Component\{index:p1\.index, name:None\}$")
        q.same(PO, E, ix, E.B.AND(E.lit(r"^p1\.container\?$"), E.B.NOT(neg)), "index", "the index does not end the path exactly when there is one")
    E = q.need("Story::pointer_at_path", PO)
    if E:
        for t, v, f in E.sites("^return$"):
            g = fields_of(v)
            if "index" in g:
                X(PO, re.search(r"index|^-1$|^φ|default", g["index"]) is not None, "read:index", f"a path's position has index {g['index'][:100]}", E.at)
        sets = E.sites(r"^set Pointer\.(index|container)$|^return$")
        s = " ".join(contract.full(v) for _, v, _ in sets)
        X(PO, "content_at_path" in s, "read:container", "a path's position is not looked up", E.at)

    # uniqueness
    Z = Eff(fresh(ctx.world.A["bladeink_compiler"]), "ValidationContext::validate_flow_name")
    X(UN, Z.ok, "anchor:validate_flow_name", "ValidationContext::validate_flow_name not found")
    if Z.ok:
        bad = Z.when("^return$", r"^Err\(")
        dg = [n for n in Z.B.names if "is_ascii_digit" in n]
        X(UN, bool(dg), "digits", "a knot may be named like an index", Z.at)
        for n in dg:
            f = Z.B.var(n) if "Iterator::all" in n else Z.B.NOT(Z.B.var(n))
            f = Z.B.AND(f, Z.lit(r"!^(str::is_)?empty\(.*p2\.name"))
            q.implies(UN, Z, f, "digits:refused", "a name of digits is accepted", bad)

    contracts(ctx, CT, "bladeink", [r"^Path::", r"^Component::", r"^<(Path|Component) as ", r"^Pointer::(get_path|resolve|start_of|is_null|new)$", r"^Object::", r"^Container::(new|get_path|content_at_path|content_with_path_component|has_valid_name|get_named_only_content|split_count_flags)$",
                                    r"^SearchResult::", r"^Story::(pointer_at_path|content_at_path|knot_container_with_name)$", r"^Divert::(get_target_pointer|get_target_path|set_target_path|get_target_path_string|convert_path_to_relative)$",
                                    r"^ChoicePoint::(get_path_on_choice|get_choice_target|get_path_string_on_choice|set_path_on_choice)$", r"^VariableReference::(get_container_for_count|get_path_for_count|get_path_string_for_count)$"], 45, text=ctx.rules[CT]["text"])
