"""C14: both loaders build the same story.  The two builds differ in nothing but the loader; for every key of the format
each loader makes the same kind of object, decided by the same keys; the tokenizer reads every JSON string escape and number."""
import json
import os
import re

import build
import contract
import lib
import tokens
from common import Q
from eff import contracts, fresh, variants_of
from names import short

SERDE, STREAM = "json_read::jtoken_to_runtime_object", "json_read_stream::token_at_depth_to_runtime_object"
# key(s) of the object -> (kind, what the object made is)
KINDS = {
    "divert target": (["^->"], r"^Path::new_with_components_string\(|ValueType::DivertTarget"),
    "variable pointer": (["^var"], r"VariablePointerValue\{"),
    "divert": (["->", "f()", "->t->", "x()"], r"^Divert\{"),
    "choice": (["*"], r"^ChoicePoint\{"),
    "variable reference": (["VAR?"], r"^VariableReference\{.*path_for_count:None"),
    "read count": (["CNT?"], r"^VariableReference\{.*path_for_count:(?!None)"),
    "assignment": (["VAR=", "temp="], r"^VariableAssignment\{"),
    "tag": (["#"], r"^Tag\{"),
    "list": (["list"], r"^InkList\{|^InkList::new|ValueType::List"),
}
# field of the object made -> the keys under which it is yes
FLAGS = {"Divert.pushes_to_stack": ["f()", "->t->"], "Divert.is_external": ["x()"], "VariableAssignment.is_global": ["VAR="]}
PUSH = {"Tunnel": ["->t->"]}
ESCAPES = {c: json.dumps(w, ensure_ascii=False) for c, w in {'"': '"', "\\": "\\", "/": "/", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}.items()}
CHOICE_BITS = {"has_condition": 1, "has_start_content": 2, "has_choice_only_content": 4, "is_invisible_default": 8, "once_only": 16}


def bare(v):
    v = contract.full(v).replace("°", "")
    m = re.match(r"^ArrayElement::RTObject\{0:(.*)\}$", v)
    return m.group(1) if m else v


def has_key(E, k):
    """the object has the key"""
    f = 0
    for p in (r'^p\d@Object\.0\["%s"\]\?$' % re.escape(k), r'^(\[T\]|[\w:]+)\(.*\)′* == "%s"$' % re.escape(k), r'^p\d+(\.\w+)* == "%s"$' % re.escape(k)):
        f = E.B.OR(f, E.lit(p))
    return f


def values(E):
    out = {}
    for t, v, h in E.sites(r"^return$"):
        v = bare(v)
        out[v] = E.B.OR(out.get(v, 0), h)
    return out


def loader(q, fn):
    X = q.ctx.expect
    E = q.need(fn, "kinds")
    if not E:
        return
    tag = fn.split("::")[0]
    R = values(E)
    allk = [k for ks, _ in KINDS.values() for k in ks]
    for kind, (ks, pat) in KINDS.items():
        f = 0
        for v, h in R.items():
            if re.search(pat, v):
                f = E.B.OR(f, h)
        X("kinds", f != 0, f"{tag}:{kind}", f"{tag} never makes a {kind}", E.at)
        if not f:
            continue
        g = 0
        for k in ks:
            l = has_key(E, k)
            # the last of a chain of tests may be implied
            X("kinds", l != 0, f"{tag}:{kind}:{k}", f"{tag} does not look for the key {k}", E.at)
            g = E.B.OR(g, l)
            if l:
                # this key alone: nothing else comes of it
                o = l
                for k2 in allk + ["originalChoicePath"]:
                    if k2 != k and has_key(E, k2):
                        o = E.B.AND(o, E.B.NOT(has_key(E, k2)))
                X("kinds", E.B.AND(o, f) != 0, f"{tag}:{kind}:{k}:made", f"{tag}: an object with the key {k} is no {kind}", E.at)
                for v, h in R.items():
                    if not re.search(pat, v) and not v.startswith(("Err(", "ArrayElement::LastElement")) and re.search(r"^[A-Z]\w*\{|^Path::", v) and not re.match(r"^(Void|Glue)\{", v):
                        q.never("kinds", E, E.B.AND(o, h), f"{tag}:{kind}:{k}:only", f"{tag}: an object with the key {k} becomes {v[:60]}")
        if not E.sat(f):
            # the key read last has been overwritten: judged without what is known of its values
            X("kinds", E.B.AND(f, E.B.NOT(g)) == 0, f"{tag}:{kind}:needs:all", f"{tag}: a {kind} is made of an object without {' or '.join(ks)}", E.at)
        q.implies("kinds", E, f, f"{tag}:{kind}:needs", f"{tag}: a {kind} is made of an object without {' or '.join(ks)}", g)
    made = [v for v in R if re.match(r"^[A-Z]\w*\{|^Path::", v)]
    for v in made:
        ok = re.match(r"^(Void|Glue)\{", v) or any(re.search(p, v) for _, p in KINDS.values())
        X("kinds", ok, f"{tag}:unknown:{v[:40]}", f"{tag} makes {v[:80]}, which is not part of the format", E.at)
    q.ctx.count(f"{tag} kinds", len(made), 11, "kinds")
    # flags
    for field, ks in FLAGS.items():
        d = {v: E.B.load(h) for v, h in E.S["ev"].get("pick " + field, {}).items()}
        if not d:
            continue
        X("flags", set(d) == {"True", "False"}, f"{tag}:{field}", f"{tag}: {field} is always {sorted(d)}", E.at)
        l = 0
        for k in ks:
            l = E.B.OR(l, has_key(E, k))
        q.implies("flags", E, d.get("True", 0), f"{tag}:{field}:yes", f"{tag}: {field} is set without the key {' or '.join(ks)}", l)
        first = l
        for k2 in [x for kk, _ in KINDS.values() for x in kk if x not in ks]:
            first = E.B.AND(first, E.B.NOT(has_key(E, k2)))
        q.never("flags", E, E.B.AND(first, d.get("False", 0)), f"{tag}:{field}:no", f"{tag}: {field} is not set under the key {' or '.join(ks)}")
    for t, dd in E.S["ev"].items():
        if t.startswith("pick ") and "PushPopType::Tunnel{}" in t:
            for v, h in dd.items():
                if v.startswith("PushPopType::Tunnel"):
                    q.implies("flags", E, E.B.load(h), f"{tag}:tunnel", f"{tag}: a divert is a tunnel without the key ->t->", has_key(E, "->t->"))
                    q.occurs("flags", E, E.B.load(h), f"{tag}:tunnel:some", f"{tag}: no divert is a tunnel")
    # strings
    for txt, pat, lit in (("<>", r"^Glue\{", '"<>"'), ("void", r"^Void\{", '"void"')):
        f = 0
        for v, h in R.items():
            if re.search(pat, v):
                f = E.B.OR(f, h)
        q.occurs("strings", E, f, f"{tag}:{txt}:some", f'{tag}: no string becomes {txt}')
        q.implies("strings", E, f, f"{tag}:{txt}", f"{tag}: a string other than {txt} is read as it", E.lit(r" == %s$" % re.escape(lit)))
    f = 0
    for v, h in R.items():
        if re.search(r"^p\d@String\.0\[RangeFrom\{start:1\}\]$|strip_prefix\(", v):
            f = E.B.OR(f, h)
    q.occurs("strings", E, f, f"{tag}:text:some", f"{tag}: text after ^ is not kept from its second character on")
    for name, call in (("commands", "ControlCommand::new_from_name("), ("operators", "NativeFunctionCall::new_from_name(")):
        vs = [v for v in R if v.startswith(call)]
        X("strings", len(vs) >= 1, f"{tag}:{name}", f"{tag} does not look up {name}", E.at)
    ops = [v for v in R if v.startswith("NativeFunctionCall::new_from_name(")]
    X("strings", all('"^"' in v for v in ops), f"{tag}:L^", f"{tag}: L^ is not turned back into ^", E.at)
    P = {}
    for t, dd in E.S["ev"].items():
        if t.startswith("pick φ{\"^\"|"):
            for v, h in dd.items():
                if v == '"^"':
                    q.implies("strings", E, E.B.load(h), f"{tag}:L^:only", f"{tag}: another name than L^ is read as ^", E.lit(r' == "L\^"$'))
    # choice flags
    cp = [v for v in R if v.startswith("ChoicePoint{")]
    for v in cp:
        for n, bit in CHOICE_BITS.items():
            m = re.search(n + r":\[0 < \((\d+) BitAnd|" + n + r":\[not \(?\(?(\d+) BitAnd", v)
            if m:
                X("flags", int(m.group(1) or m.group(2)) == bit, f"{tag}:choice:{n}", f"{tag}: {n} is bit {m.group(1) or m.group(2)} of flg, not {bit}", E.at)


def configs(q):
    """the two builds are the same but for the loader Story::new calls"""
    X = q.ctx.expect
    try:
        out, key = build.facts("stream-json-parser")
    except build.BuildError as e:
        q.ctx.fail("configs", "build", f"the runtime does not build with stream-json-parser: {str(e)[-300:]}", "runtime/Cargo.toml")
        return
    one = q.A.crate
    W = lib.load_one(out, "bladeink")
    two = W.crate
    n = 0
    for p, b in one.bodies.items():
        c = two.bodies.get(p)
        n += 1
        if c is None or sig(b) != sig(c):
            X("configs", loads(short(p)), short(p), f"{short(p)} differs when the crate is built with stream-json-parser", f"{b.file}:{b.line}")
    for p in two.bodies:
        X("configs", p in one.bodies, "only:" + short(p), f"{short(p)} exists only with stream-json-parser", "")
    q.ctx.count("functions compared over both builds", n, 500, "configs")
    A1, A2 = fresh(q.A), fresh(W)
    ks = contract.keys(A1), contract.keys(A2)
    S = [contract.summary_of(a, k["Story::new"]) if "Story::new" in k else None for a, k in zip((A1, A2), ks)]
    X("configs", all(S), "Story::new:both", "Story::new is not found in both builds", "")
    if all(S):
        sub = lambda s: json.loads(re.sub(r"\bjson_read_stream::load_from_string", "json_read::load_from_string", json.dumps({k: v for k, v in s.items() if k != "_s"})))
        calls = [[v for v in s["ev"] if "load_from_string" in v] for s in S]
        X("configs", calls[0] == ["call json_read::load_from_string"], "Story::new:default", f"the default build loads with {calls[0]}", "runtime/src/story/mod.rs")
        X("configs", calls[1] == ["call json_read_stream::load_from_string"], "Story::new:stream", f"the stream-json-parser build loads with {calls[1]}", "runtime/src/story/mod.rs")
        d = contract.compare(sub(S[0]), sub(S[1]))
        X("configs", not d, "Story::new:same", f"Story::new does more than load differently with stream-json-parser: {d[:1]}", "runtime/src/story/mod.rs")


def loads(name):
    return name == "Story::new" or name.startswith("Story::new::")


def sig(b):
    return json.dumps([b.blocks], sort_keys=True, default=str)


def check(ctx):
    ctx.rule("configs", "built with and without stream-json-parser every function is the same, except that Story::new reads with the streaming or the default loader and does the same with the result")
    ctx.rule("kinds", "in each loader, for each key of the compiled format: the kind of object made of it, exactly when the key is there")
    ctx.rule("flags", "in each loader: what a key says about the object made (pushes, external, tunnel, global, choice flags)")
    ctx.rule("strings", "in each loader: text, newline, glue, commands, operators (L^ standing for ^) and void")
    ctx.rule("escapes", "the tokenizer reads each JSON escape as the character it stands for, and any other as an error; a pair of surrogates as one character")
    ctx.rule("layout", "the tokenizer keeps white space inside strings and only there, and tells value kinds by their first character")
    q = Q(ctx)
    X = ctx.expect
    configs(q)
    loader(q, SERDE)
    loader(q, STREAM)
    ctx.rule("names", "the names of commands and operators, shared by both loaders, stand for what the format says")
    tokens.readers(q, "names")

    E = q.need("JsonTokenizer::read_escape", "escapes")
    if E:
        R = {}
        for t, v, h in E.sites("^return$"):
            v = contract.full(v)
            R[v] = E.B.OR(R.get(v, 0), h)
        for c, w in ESCAPES.items():
            f = R.get(w, 0)
            X("escapes", f != 0, f"escape:{c}", f"the escape {c} is not read as {w}", E.at)
            if f:
                q.implies("escapes", E, f, f"escape:{c}:only", f"another escape than {c} is read as {w}", r" == " + re.escape(json.dumps(c)) + "$")
        ctx.count("escapes", len([w for w in ESCAPES.values() if R.get(w)]), 6, "escapes")
        u = 0
        for v, h in R.items():
            if "decode_utf16" in v or "from_u32" in v:
                u = E.B.OR(u, h)
        q.occurs("escapes", E, u, "escape:u", "\\u escapes are never decoded")
        q.implies("escapes", E, u, "escape:u:only", "another escape than u is decoded as a code", r' == "u"$')
        for v, h in R.items():
            if v.startswith("Err("):
                for c in ESCAPES:
                    q.never("escapes", E, E.B.AND(h, E.B.AND(E.lit(r"read\(p1\)′* == " + re.escape(json.dumps(c)) + "$"), E.B.NOT(E.lit(r'read\(p1\)′* == "u"$')))), f"escape:{c}:err", f"the escape {c} is an error")
    E = q.need("JsonTokenizer::read_string", "layout")
    if E:
        off = E.when(r"^set JsonTokenizer\.skip_whitespaces$", "^False$")
        on = E.when(r"^set JsonTokenizer\.skip_whitespaces$", "^True$")
        q.occurs("layout", E, off, "string:keeps", "white space inside strings is skipped")
        q.occurs("layout", E, on, "string:ends", "white space after a string is not skipped any more")
        ret = 0
        for t, v, h in E.sites("^return$"):
            if not v.startswith("Err("):
                ret = E.B.OR(ret, h)
        q.implies("layout", E, ret, "string:restored", "a string ends without white space being skipped again", on)
    E = q.need("JsonTokenizer::read_value", "layout")
    if E:
        for v, chars in (("Array", "["), ("Object", "{"), ("String", '"'), ("Boolean", "tf"), ("Null", "n")):
            f = E.when("^return$", r"JsonValue::%s\b" % v)
            q.occurs("layout", E, f, f"value:{v}", f"no value is read as {v}")
            ls = [r" == %s$" % re.escape(json.dumps(c)) for c in chars]
            q.implies("layout", E, f, f"value:{v}:only", f"a value that does not start with {' or '.join(chars)} is read as {v}", *ls)
    E = q.need("JsonTokenizer::read_number", "layout")
    if E:
        vs = [contract.full(v) for t, v, h in E.sites("^return$")]
        X("layout", any("parse<i64>" in v or "parse<i32>" in v for v in vs), "number:int", "integers are not read as integers", E.at)
        X("layout", any(re.search(r"Number::Float\{0:\(str::parse<f64>\(.*\) as f32\)\}", v) for v in vs), "number:float", "other numbers are not read in double precision and then rounded, as the default loader does", E.at)
