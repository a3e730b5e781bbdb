"""C07: expressions evaluate as Ink specifies: per operator and operand type, by an independent table of the language."""
import re

import contract
import tokens
from common import Q
from eff import Eff, contracts, fresh, variants_of

TYPES = ["Bool", "Int", "Float", "List", "String", "DivertTarget", "VariablePointer"]
ERR = "ERR"
VAL = lambda *v: ("val", v)
# operator function -> {operand type: what it gives}; a, b are the operands.  ("val", accepted texts) or ("iff", condition of truth)
IFF = lambda s: ("iff", s)
LT, GT = "a < b", "b < a"
LISTGT = "!empty(a.items) & (empty(b.items) | InkList::get_max_item(b).1 < InkList::get_min_item(a).1)"
LISTLT = "!empty(b.items) & (empty(a.items) | InkList::get_max_item(a).1 < InkList::get_min_item(b).1)"
LISTGE = "!empty(a.items) & (empty(b.items) | !InkList::get_min_item(a).1 < InkList::get_min_item(b).1 & !InkList::get_max_item(a).1 < InkList::get_max_item(b).1)"
LISTLE = "!empty(b.items) & (empty(a.items) | !InkList::get_max_item(b).1 < InkList::get_max_item(a).1 & !InkList::get_min_item(b).1 < InkList::get_min_item(a).1)"
EQ = {"Bool": IFF("a == b"), "Int": IFF("a == b"), "Float": IFF("a == b"), "List": IFF("a == b"), "String": IFF("a.string == b.string"), "DivertTarget": IFF("a == b")}
TABLE = {
    "add_op": {"Int": VAL("i32::wrapping_add(a,b)"), "Float": VAL("Add::add(a,b)", "(a Add b)"), "List": VAL("InkList::union(a,b)"), "String": VAL("String::new()")},
    "subtract_op": {"Int": VAL("i32::wrapping_sub(a,b)"), "Float": VAL("(a Sub b)", "Sub::sub(a,b)"), "List": VAL("InkList::from_other_list(a)", "InkList::without(a,b)")},
    "divide_op": {"Int": ("div", "i32::wrapping_div(a,b)"), "Float": VAL("(a Div b)", "Div::div(a,b)")},
    "multiply_op": {"Int": VAL("i32::wrapping_mul(a,b)"), "Float": VAL("(a Mul b)", "Mul::mul(a,b)")},
    "mod_op": {"Int": ("div", "i32::wrapping_rem(a,b)"), "Float": VAL("(a Rem b)", "Rem::rem(a,b)")},
    "negate_op": {"Int": VAL("i32::wrapping_neg(a)"), "Float": VAL("Neg::neg(a)", "(Neg a)")},
    "equal_op": EQ,
    "not_equals_op": {k: IFF("!" + v[1]) for k, v in EQ.items()},
    "greater_op": {"Int": IFF(GT), "Float": IFF(GT), "List": ("iff", LISTGT, "InkList::greater_than(a,b)")},
    "less_op": {"Int": IFF(LT), "Float": IFF(LT), "List": ("iff", LISTLT, "InkList::less_than(a,b)")},
    "greater_than_or_equals_op": {"Int": IFF("!a < b"), "Float": IFF("!a < b"), "List": ("iff", LISTGE, "InkList::greater_than_or_equals(a,b)")},
    "less_than_or_equals_op": {"Int": IFF("!b < a"), "Float": IFF("!b < a"), "List": ("iff", LISTLE, "InkList::less_than_or_equals(a,b)")},
    "not_op": {"Int": IFF("a == 0"), "Float": IFF('a == "0.0"'), "List": ("one", "empty(a.items)")},
    "and_op": {"Bool": IFF("a & b"), "Int": IFF("!a == 0 & !b == 0"), "Float": IFF('!a == "0.0" & !b == "0.0"'), "List": IFF("!empty(a.items) & !empty(b.items)")},
    "or_op": {"Bool": IFF("a | b"), "Int": IFF("!a == 0 | !b == 0"), "Float": IFF('!a == "0.0" | !b == "0.0"'), "List": IFF("!empty(a.items) | !empty(b.items)")},
    "min_op": {"Int": VAL("Ord::min(a,b)", "cmp::min(a,b)"), "Float": VAL("f32::min(a,b)")},
    "max_op": {"Int": VAL("Ord::max(a,b)", "cmp::max(a,b)"), "Float": VAL("f32::max(a,b)")},
    "pow_op": {"Int": VAL("f32::powf((a as f32),(b as f32))"), "Float": VAL("f32::powf(a,b)")},
    "floor_op": {"Int": VAL("a"), "Float": VAL("f32::floor(a)")},
    "ceiling_op": {"Int": VAL("a"), "Float": VAL("f32::ceil(a)")},
    "int_op": {"Int": VAL("a"), "Float": VAL("(a as trunc i32)")},
    "float_op": {"Int": VAL("(a as f32)"), "Float": VAL("a")},
    "has": {"List": IFF("InkList::contains(a,b)"), "String": IFF("str::contains(a.string,b.string)")},
    "hasnt": {"List": IFF("!InkList::contains(a,b)"), "String": IFF("!str::contains(a.string,b.string)")},
    "intersect_op": {"List": VAL("InkList::intersect(a,b)")},
    "list_min_op": {"List": VAL("InkList{items:BTreeMap::new(), origins:Vec::new(), initial_origin_names:Vec::new()}", "InkList::min_as_list(a)")},
    "list_max_op": {"List": VAL("InkList{items:BTreeMap::new(), origins:Vec::new(), initial_origin_names:Vec::new()}", "InkList::max_as_list(a)")},
    "all_op": {"List": VAL("InkList::get_all(a)")},
    "count_op": {"List": VAL("BTreeMap::len(a.items)", "(BTreeMap::len(a.items) as i32)")},
    "value_of_list_op": {"List": VAL("0", "InkList::get_max_item(a).1")},
    "inverse_op": {"List": VAL("InkList::inverse(a)")},
}
# what is put in or taken out along the way
INNER = {
    ("add_op", "String"): {"push_str": ["a.string", "b.string"]},
    ("subtract_op", "List"): {"remove": ["each(b.items).0"]},
    ("list_min_op", "List"): {"insert": ["InkListItem{origin_name:InkList::get_min_item(a).0.origin_name, item_name:InkList::get_min_item(a).0.item_name}, InkList::get_min_item(a).1"]},
    ("list_max_op", "List"): {"insert": ["InkListItem{origin_name:InkList::get_max_item(a).0.origin_name, item_name:InkList::get_max_item(a).0.item_name}, InkList::get_max_item(a).1"]},
}
CAST = {
    ("Bool", 0): ["None"], ("Bool", 1): {"1": "p", "0": "!p"}, ("Bool", 2): {'"1.0"': "p", '"0.0"': "!p"}, ("Bool", 4): {'"true"': "p", '"false"': "!p"},
    ("Int", 0): {"True": "!p == 0", "False": "p == 0"}, ("Int", 1): ["None"], ("Int", 2): ["(p as f32)"], ("Int", 4): ["p"],
    ("Float", 0): {"True": '!p == "0.0"', "False": 'p == "0.0"'}, ("Float", 1): ["(p as trunc i32)"], ("Float", 2): ["None"], ("Float", 4): ["p"],
    ("List", 1): {"0": "!InkList::get_max_item(p)?", "InkList::get_max_item(p).1": "InkList::get_max_item(p)?"},
    ("List", 2): {'"0.0"': "!InkList::get_max_item(p)?", "(InkList::get_max_item(p).1 as f32)": "InkList::get_max_item(p)?"},
    ("List", 3): ["None"],
    ("List", 4): {'""': "!InkList::get_max_item(p)?"},
    ("String", 1): ["str::parse<i32>(p.string)"], ("String", 2): ["str::parse<f32>(p.string)"], ("String", 4): ["None"],
    ("DivertTarget", 5): ["None"], ("VariablePointer", 6): ["None"],
}


class Terms:
    """text conditions over the operands to formulas of the function's own atoms"""

    def __init__(self, E, sub):
        self.E, self.B, self.sub = E, E.B, sub
        self.by = {}
        for n in list(E.B.names):
            self.by.setdefault(self.norm(contract.full(n)), []).append(n)
        self.missing = set()

    def norm(self, s):
        for a, b in self.sub:
            s = s.replace(a, b)
        return s.replace("°", "").replace("′", "")

    def atom(self, s):
        for x in {s, re.sub(r"^(.*) == (.*)$", r"\2 == \1", s)}:
            if x in self.by:
                f = 0
                for n in self.by[x]:
                    f = self.B.OR(f, self.B.var(n))
                return f
        self.missing.add(s)
        return self.B.var("missing:" + s)

    def f(self, s):
        """| over & over ! over atoms, with one level of parentheses"""
        s = s.strip()
        d, parts, cur = 0, [], ""
        for op in ("|", "&"):
            d, parts, cur = 0, [], ""
            for ch in s:
                d += ch in "(<" and ch == "("
                d -= ch == ")"
                if ch == op and d == 0:
                    parts.append(cur)
                    cur = ""
                else:
                    cur += ch
            parts.append(cur)
            if len(parts) > 1:
                r = self.f(parts[0])
                for p in parts[1:]:
                    r = self.B.OR(r, self.f(p)) if op == "|" else self.B.AND(r, self.f(p))
                return r
        if s.startswith("!"):
            return self.B.NOT(self.f(s[1:]))
        if s.startswith("(") and s.endswith(")"):
            return self.f(s[1:-1])
        return self.atom(s)


def typed(E, pat, ty):
    """every tested operand is of the type"""
    g = 1
    for a in E.atoms(pat):
        l = E.lit("^" + re.escape(a) + "$")
        g = E.B.AND(g, l if a.endswith(" is " + ty) else E.B.NOT(l))
    return g


def operator(q, rid, fn, want, at=None):
    E = q.need("NativeFunctionCall::" + fn, rid)
    if not E:
        return
    X = q.ctx.expect
    for ty in TYPES:
        g = typed(E, r"^p2\[\d\]\.value is ", ty)
        T = Terms(E, [(f"p2[0].value@{ty}.0", "a"), (f"p2[1].value@{ty}.0", "b")])
        w = want.get(ty)
        sites = [(t, T.norm(contract.full(v)), E.B.AND(g, h)) for t, v, h in E.sites("") if E.sat(E.B.AND(g, h))]
        rets = {}
        for t, v, h in sites:
            if t == "return":
                rets[v] = E.B.OR(rets.get(v, 0), h)
        oks = {v: h for v, h in rets.items() if not v.startswith("Err(")}
        errs = 0
        for v, h in rets.items():
            if v.startswith("Err("):
                errs = E.B.OR(errs, h)
        k = f"{fn}:{ty}"
        if w is None:
            X(rid, not oks, k, f"{fn} gives {sorted(oks)[:3]} for {ty} operands, which Ink rejects", E.at)
            continue
        kind, what = w[:2]
        for alt in w[2:]:
            if alt in T.by or alt in oks:
                what = alt
        if kind == "val":
            bad = [v for v in oks if v not in what]
            X(rid, bool(oks) and not bad, k, f"{fn} of {ty} operands gives {(bad or ['nothing'])[0][:160]}, not {' or '.join(what)[:160]}", E.at)
            q.never(rid, E, errs, k + ":rejected", f"{fn} rejects {ty} operands")
        elif kind == "div":
            z = T.f("b == 0")
            X(rid, not T.missing, k + ":zero", f"{fn} does not look for a zero divisor", E.at)
            X(rid, set(oks) == {what}, k, f"{fn} of {ty} operands gives {sorted(oks)[:2]}, not {what}", E.at)
            q.same(rid, E, errs, E.B.AND(g, z), k + ":reject", f"{fn} of {ty} operands is rejected exactly when the divisor is zero")
        else:
            one, nil = ("True", "False") if kind == "iff" else ("1", "0")
            f = T.f(what)
            bad = sorted(set(oks) - {one, nil})
            if bad == [what] or (bad and T.missing and bad == ["a"]):
                bad = []
            X(rid, not T.missing, k + ":tests", f"{fn} of {ty} operands does not test {', '.join(sorted(T.missing))[:200]}", E.at)
            X(rid, not bad, k, f"{fn} of {ty} operands gives {bad[:2]}", E.at)
            if not T.missing:
                wr = E.B.OR(E.B.AND(oks.get(one, 0), E.B.NOT(f)), E.B.AND(oks.get(nil, 0), f))
                # cases whose other side is decided elsewhere are not possible: only the paths that return count
                q.never(rid, E, wr, k + ":truth", f"{fn} of {ty} operands is not exactly [{what}]")
            q.never(rid, E, errs, k + ":rejected", f"{fn} rejects {ty} operands")
        inn = INNER.get((fn, ty), {})
        for ev, vals in inn.items():
            got = [v for t, v, h in sites if t == "local " + ev]
            delegated = any(v.startswith(("InkList::without(", "InkList::min_as_list(", "InkList::max_as_list(")) for v in oks)
            X(rid, delegated or sorted(got) == sorted(vals), k + ":" + ev, f"{fn} of {ty} operands: {ev} of {got}, not {vals}", E.at)


def check(ctx):
    q = Q(ctx)
    A = fresh(ctx.world.A["bladeink"])
    X = ctx.expect
    NM, AR, DI, OP, CA, CO, LI, CT = "names", "arity", "dispatch", "operators", "casts", "coercion", "lists", "contracts"
    ctx.rule(NM, "every operator name of the format stands for its operator")
    ctx.rule(AR, "each operator takes as many operands as Ink gives it, and only that many are accepted")
    ctx.rule(DI, "each operator is computed by its own function")
    ctx.rule(OP, "each operator gives, for each type both operands have, the value Ink defines (wrapping integers, zero divisors rejected, truth tables), and rejects every other type")
    ctx.rule(CA, "a value is turned into another type as Ink defines, and only where Ink allows it")
    ctx.rule(CO, "operands are brought to the larger of their types, at least an integer; lists meet numbers only by counting along their declaration, and and/or by truth")
    ctx.rule(LI, "lists are kept in item order, so nothing depends on the order of insertion; the extremes, ranges, complements and unions are those of the declared items")
    ctx.rule(CT, "every function that computes, converts or compares values, and every one that parses or emits an expression, does so under the reviewed conditions")

    tokens.readers(q, NM)
    E = q.need("NativeFunctionCall::get_number_of_parameters", AR)
    if E:
        for name, (var, k, fn) in tokens.OPS.items():
            f = tokens.only(E, r"^p1\.op is (\w+)$", var)
            if not f:
                f = rest(E, r"^p1\.op is (\w+)$")
            got = sorted({contract.full(v) for t, v, h in E.sites("^return$") if E.sat(E.B.AND(f, h))})
            X(AR, got == [str(k)], f"arity:{var}", f"{name} is given {got} operands, not {k}", E.at)
        ctx.count("operators with an arity", len(tokens.OPS), 31, AR)
    E = q.need("NativeFunctionCall::call", AR)
    if E:
        n = E.lit(r"^(NativeFunctionCall::get_number_of_parameters\(p1\)) == Vec::len\(p2\)$|^Vec::len\(p2\) == NativeFunctionCall::get_number_of_parameters\(p1\)$")
        did = E.when(r"^call NativeFunctionCall::")
        q.implies(AR, E, did, "call:count", "an operator is computed with another number of operands", n)
    E = q.need("NativeFunctionCall::call_type", DI)
    if E:
        for name, (var, k, fn) in tokens.OPS.items():
            f = tokens.only(E, r"^p1\.op is (\w+)$", var) or rest(E, r"^p1\.op is (\w+)$")
            own = q.need("NativeFunctionCall::" + fn, DI)
            if not own:
                continue
            ok = {contract.full(v).replace("°", "") for t, v, h in own.sites("^return$")}
            got = {contract.full(v).replace("°", "") for t, v, h in E.sites("^return$") if E.sat(E.B.AND(f, h))}
            bad = sorted(got - ok - {f"NativeFunctionCall::{fn}(p1,p2)"})
            X(DI, got and not bad, f"dispatch:{var}", f"{name} is computed as {(bad or ['nothing'])[0][:200]}, not by {fn}", E.at)
        ctx.count("operators dispatched", len(tokens.OPS), 31, DI)
    for fn, want in TABLE.items():
        operator(q, OP, fn, want)
    ctx.count("operator and operand type pairs", len(TABLE) * len(TYPES), 31 * 7, OP)

    for name, cond in (("greater_than", LISTGT), ("less_than", LISTLT), ("greater_than_or_equals", LISTGE), ("less_than_or_equals", LISTLE)):
        E = q.need("InkList::" + name, LI)
        if E:
            T = Terms(E, [(r"p1.", "a."), ("p2.", "b."), ("(p1)", "(a)"), ("(p2)", "(b)")])
            f = T.f(cond)
            got = {}
            for t, v, h in E.sites("^return$"):
                got[v] = E.B.OR(got.get(v, 0), h)
            X(LI, set(got) == {"True", "False"}, name, f"{name} answers {sorted(got)[:3]}", E.at)
            X(LI, not T.missing, name + ":tests", f"{name} does not test {', '.join(sorted(T.missing))[:200]}", E.at)
            if not T.missing:
                q.never(LI, E, E.B.OR(E.B.AND(got.get("True", 0), E.B.NOT(f)), E.B.AND(got.get("False", 0), f)), name + ":truth", f"{name} is not exactly [{cond}]")

    X(CA, list(variants_of(A, "ValueType") or []) == TYPES, "types", f"the types are ordered {variants_of(A, 'ValueType')}, not {TYPES}: an operand pair is brought to the later of its two types", "")
    E = q.need("Value::cast", CA)
    if E:
        for ty in TYPES:
            for d in range(7):
                T = Terms(E, [(f"p1.value@{ty}.0", "p")])
                g = typed(E, r"^p1\.value is ", ty)
                for a in E.atoms(r"^p2 == \d"):
                    l = E.lit("^" + re.escape(a) + "$")
                    g = E.B.AND(g, l if a == f"p2 == {d}" else E.B.NOT(l))
                got = {}
                for t, v, h in E.sites("^return$"):
                    h = E.B.AND(g, h)
                    if E.sat(h):
                        v = T.norm(contract.full(v))
                        got[v] = E.B.OR(got.get(v, 0), h)
                w = CAST.get((ty, d))
                k = f"cast:{ty}:{TYPES[d]}"
                if w is None:
                    X(CA, all(v.startswith("Err(") for v in got) and got, k, f"a {ty} is turned into {TYPES[d]}: {sorted(got)[:2]}", E.at)
                elif isinstance(w, list):
                    vs = {v for v in got if not v.startswith("Err(")}
                    ok = vs <= set(w) and vs or ty in ("String",) and d in (1, 2) and all("parse<" in v for v in vs) and vs
                    X(CA, ok, k, f"a {ty} turned into {TYPES[d]} gives {sorted(got)[:2]}, not {w[0]}", E.at)
                else:
                    for v, c in w.items():
                        f = T.f(c)
                        if v not in got and any(v in g and g.startswith("φ{") or g.startswith("Option::map_or(") and '"0.0"' in g and "as f32" in g for g in got):
                            continue        # chosen on the way
                        X(CA, v in got, k + ":" + v, f"a {ty} turned into {TYPES[d]} is never {v}", E.at)
                        if v in got and not T.missing:
                            q.implies(CA, E, got[v], k + ":" + v + ":when", f"a {ty} turned into {TYPES[d]} is {v} when not [{c}]", f)
                    X(CA, not T.missing, k + ":tests", f"turning a {ty} into {TYPES[d]} does not test {sorted(T.missing)}", E.at)
        ctx.count("type pairs cast", 49, 49, CA)

    ctx.rule("source", "each operator sign and function name of the source is written as the word that stands for it, operators binding in the order or, and, equality, comparison, sum, product, sign")
    source(ctx, "source")
    E = q.need("NativeFunctionCall::coerce_values_to_single_type", CO)
    if E:
        vs = [contract.full(v) for t, v, f in E.sites("^local push$") if "Value::cast(" in contract.full(v)]
        X(CO, any(re.search(r"Value::cast\(.*φ\{.*\|1\}\)|Value::cast\(.*φ\{1\|.*\}\)|Value::cast\(.*(fold|max)\w*\(", v) for v in vs), "coerce:from-int", f"operands are not brought to the largest of their types starting from the integers: {vs[:1]}", E.at)
    E = q.need("NativeFunctionCall::call_binary_list_operation", CO)
    if E:
        inc = E.when(r"^return$", r"call_list_increment_operation")
        q.occurs(CO, E, inc, "increment", "a list plus or minus a number is never counted along")
        q.implies(CO, E, inc, "increment:ops", "a list is counted along by an operator other than + and -", E.B.OR(E.lit(r"^p1\.op is Add$"), E.lit(r"^p1\.op is Subtract$")))
        q.implies(CO, E, inc, "increment:list", "what is counted along is not a list", r"^TryInto::try_into<InkList>\(p2\[0\]\)\?$|^dc<Value>\(p2\[0\]\)\.value is List$")
        q.implies(CO, E, inc, "increment:int", "what a list is counted along by is not an integer", r"^TryInto::try_into<i32>\(p2\[1\]\)\?$|^dc<Value>\(p2\[1\]\)\.value is Int$")
        tr = E.when("^return$", "^(True|False)$")
        q.implies(CO, E, tr, "truth:ops", "operands are compared by truth for an operator other than and/or", E.B.OR(E.lit(r"^p1\.op is And$"), E.lit(r"^p1\.op is Or$")))
    X(LI, "BTreeMap" in types_of(A, "InkList").get("items", ""), "InkList.items", f"list items are kept in {types_of(A, 'InkList').get('items')}: their order must not depend on how they were added", "")


LEVELS = [("parse_or", "parse_and", {"Or": "OrOr"}), ("parse_and", "parse_equality", {"And": "AndAnd"}), ("parse_equality", "parse_comparison", {"Equal": "EqualEqual", "NotEqual": "NotEqual"}),
          ("parse_comparison", "parse_addition", {"Greater": "Greater", "GreaterEqual": "GreaterEqual", "Less": "Less", "LessEqual": "LessEqual", "Has": "Has", "Hasnt": "Hasnt", "Intersect": "Caret"}),
          ("parse_addition", "parse_multiplication", {"Add": "Plus", "Subtract": "Minus"}), ("parse_multiplication", "parse_unary", {"Multiply": "Star", "Divide": "Slash", "Modulo": "Percent"})]
EMIT = {"Add": "+", "Subtract": "-", "Multiply": "*", "Divide": "/", "Modulo": "%", "Equal": "==", "NotEqual": "!=", "Greater": ">", "GreaterEqual": ">=", "Less": "<", "LessEqual": "<=", "And": "&&", "Or": "||",
        "Has": "?", "Hasnt": "!?", "Intersect": "L^"}
FUNCS = {"CEILING": "CEILING", "FLOAT": "FLOAT", "FLOOR": "FLOOR", "INT": "INT", "LIST_ALL": "LIST_ALL", "LIST_COUNT": "LIST_COUNT", "LIST_INVERT": "LIST_INVERT", "LIST_MAX": "LIST_MAX", "LIST_MIN": "LIST_MIN",
         "LIST_VALUE": "LIST_VALUE", "MAX": "MAX", "MIN": "MIN", "POW": "POW", "CHOICE_COUNT": "choiceCnt", "LIST_RANDOM": "lrnd", "LIST_RANGE": "range", "READ_COUNT": "readc", "RANDOM": "rnd", "SEED_RANDOM": "srnd",
         "TURNS": "turn", "TURNS_SINCE": "turns"}


def picks(E, pat):
    """{operand text: condition} of the value chosen among the literals matching pat"""
    out = {}
    for t, d in E.S["ev"].items():
        if t.startswith("pick ") and re.search(pat, t):
            for v, f in d.items():
                out[v.strip('"')] = E.B.OR(out.get(v.strip('"'), 0), E.B.load(f))
    return out


def source(ctx, rid):
    """from operator text to the word of the compiled format, and which operator binds tighter"""
    q = Q(ctx, "bladeink_compiler")
    X = ctx.expect
    n = 0
    for fn, nxt, ops in LEVELS:
        E = q.need("ExpressionParser::" + fn, rid)
        if not E:
            continue
        lower = sorted({t.split("::")[-1] for t, v, f in E.sites(r"^call ExpressionParser::parse_")})
        X(rid, lower == [nxt], f"{fn}:operands", f"the operands of {fn} are read by {lower}, not {nxt}", E.at)
        M = E
        if any("match_additive_operator" in t for t, v, f in E.sites("^call ")):
            M = q.need("ExpressionParser::match_additive_operator", rid) or E
        for op, tok in ops.items():
            f = 0
            for t, v, h in M.sites("^return$"):
                v = contract.full(v)
                # the operator built last is the outermost one
                m = re.findall(r"operator:BinaryOperator::(\w+)", v) or re.findall(r"^BinaryOperator::(\w+)", v)
                if m and m[-1] == op:
                    f = M.B.OR(f, h)
            P = picks(M, r"BinaryOperator::%s\{\}" % op)
            if f == 0 and f"BinaryOperator::{op}{{}}" in P:
                f = P[f"BinaryOperator::{op}{{}}"]
            X(rid, f != 0, f"{fn}:{op}", f"{fn} never builds {op}", M.at)
            if f:
                n += 1
                lits = M.lit(r"match_token\(p1,Token::%s\{\}\)" % tok)
                if op == "Modulo":
                    lits = M.B.OR(lits, M.lit(r'match_identifier\(p1,"mod"\)'))
                q.implies(rid, M, f, f"{fn}:{op}:token", f"{op} is built without having read its sign {tok}", lits)
    ctx.count("binary operators parsed", n, 16, rid)
    E = q.need("emitter::emit_expression_ctx", rid)
    if not E:
        return
    P = picks(E, r'"!\?"')
    X(rid, set(P) == set(EMIT.values()), "emit:words", f"operators are written as {sorted(set(P) ^ set(EMIT.values()))} unlike the format", E.at)
    for op, w in EMIT.items():
        if w in P:
            q.implies(rid, E, P[w], f"emit:{op}", f"{w} is written for an operator other than {op}", E.lit(r"^p1@Binary\.operator is %s$" % op))
    P = picks(E, r'"LIST_ALL"')
    for name, w in FUNCS.items():
        X(rid, w in P, f"emit:{name}", f"{name} is never written as {w}", E.at)
        if w in P:
            q.implies(rid, E, P[w], f"emit:{name}:name", f"{w} is written for a function other than {name}", E.lit(r'^p1@FunctionCall\.name == "%s"$' % name))
    ctx.count("built-in functions emitted", len(P), 21, rid)
    # a list item is known by its list everywhere, also in the values variables start with
    n = 0
    for b in q.A.fns():
        if not any(y.path.endswith("emit_expression_ctx") for _, t in plain_calls(b) for y in ([] if "ind" in t[1] else q.A.cg.targets(t[1]))):
            continue
        F = Eff(q.A, b.path)
        for _, v, f in F.sites(r"^call emitter::emit_expression_ctx$"):
            n += 1
            X(rid, not re.search(r", None, [^,]*$", contract.full(v)), f"lists:{b.path.split('::')[-1]}", "an expression is compiled without knowing the lists of the story: its list items have no list and no value", F.at)
    ctx.count("places that compile expressions", n, 5, rid)


def plain_calls(b):
    for i, bl in enumerate(b.blocks):
        if bl["t"][0] == "call":
            yield i, bl["t"]


def rest(E, pat):
    """no tested name holds"""
    f = 1
    for a in E.atoms(pat):
        f = E.B.AND(f, E.B.NOT(E.lit("^" + re.escape(a) + "$")))
    return f


def types_of(A, adt):
    """{field: type} of a struct"""
    for p, a in A.crate.adts.items():
        if p.split("::")[-1] == adt:
            return {f[0]: str(f[1]) for f in a["variants"][0][2]}
    return {}
