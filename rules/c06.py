"""C06: the compiler answers every text with a story or an error: no panic, no endless loop or recursion; nothing is
returned that was not checked against the loader's bound and for dangling references."""
import re

import contract
import loops
import psites
from common import Q
from eff import callers, contracts, cycles, fresh, reach
from names import short
from rules import tokens

C = "bladeink_compiler"
PARSE = r"^(parser|inline|includes|conditional|sequence|choice|statement|expression|header|declarations|lines|story)::|^(ExpressionParser|Parser)::"
# recursive groups over trees that are finite by then: the parsed program (its depth bounded by the parser) and the emitted JSON
TREE = {"consts::resolve_expression": "", "consts::resolve_choice": "", "consts::resolve_nodes": "", "consts::resolve_flow": "", "nesting::json_depth": "", "resolve::check_container": "", "resolve::collect_variables": "",
        "validator::collect_labels_from_nodes": "", "validator::collect_temps_recursive": "", "stats::count_nodes_in_slice": "", "stats::count_words_in_nodes": ""}
TREE_RE = r"^<\w+ as (Clone|PartialEq|Default|Debug)>::|^emitter::|^ValidationContext::"
# JSON keys that hold a path, as the loaders read them
PATH_KEYS = {"->", "f()", "->t->", "*", "CNT?", "^->"}
NAME_KEYS = {"VAR?", "^var", "VAR=", "temp="}
# every key of an object the loaders understand in content
KEYS = PATH_KEYS | NAME_KEYS | {"x()", "var", "c", "exArgs", "flg", "re", "ci", "list", "origins", "#", "#f", "#n"}


def guarded(P, b, comp):
    """no recursive call is reachable unless Nesting::enter succeeded, nor after the level was left"""
    base = lambda p: p.split("::{closure")[0]
    gate = set()
    rec = set()
    drops = set()
    for i in b.reach:
        t = b.blocks[i]["t"]
        if t[0] == "call" and isinstance(t[1], dict):
            c = t[1].get("r") or t[1].get("p") or ""
            if short(c) == "Nesting::enter":
                gate |= P.success_edges(b, i) or set()
            elif base(c) in comp or re.search(r"ops::Fn(Mut|Once)?::call", t[1].get("p") or ""):
                rec.add(i)
        if t[0] == "drop" and b.locals[t[1][0]][0].endswith("nesting::Nesting") and not b.blocks[i].get("cl"):
            drops.add(i)

    def run(start, edges):
        seen, st = set(start), list(start)
        while st:
            x = st.pop()
            for s in b.succs[x]:
                if (x, s) not in edges and s not in seen:
                    seen.add(s)
                    st.append(s)
        return seen
    if not gate:
        return False, "asks no level of nesting"
    if run([0], gate) & rec:
        return False, "can recurse without a level of nesting"
    if drops and run([s for d in drops for s in b.succs[d]], set()) & rec:
        return False, "can recurse after giving its level of nesting back"
    return True, ""


def check(ctx):
    q = Q(ctx, C)
    A = fresh(ctx.world.A[C])
    R = fresh(ctx.world.A["bladeink"])
    ks = contract.keys(A)
    P, L, D, O, K, T, E_, N = "no-panic", "progress", "recursion", "checked", "references", "tokens", "lines", "determinism"
    ctx.rule(P, "every construct that can panic in the compiler is discharged by its own guards or is a reviewed one under no weaker guards")
    ctx.rule(L, "every loop of the compiler consumes lines, tokens, characters or an iterator on each way round")
    ctx.rule(D, "every recursion of the parser holds a level of nesting, of which there is a fixed number, while it goes deeper; includes nest at most MAX_INCLUDE_DEPTH deep; all other recursion descends a finite tree")
    ctx.rule(O, "compile returns Ok only the serialised form of JSON that passed validation, the depth check and the reference check")
    ctx.rule(K, "the reference check covers every kind of reference the emitter writes, visits all content and answers unresolved ones with an error")
    ctx.rule(T, "every command and operator name the emitter writes is one the loaders read, and they read each as what it stands for")
    ctx.rule(E_, "a line an error names is the number of a line of the parsed text")
    ctx.rule(N, "nothing the compiler does depends on the order of a hash table")
    known = [k for k, b in ks.items() if A.I.is_known(b)]
    psites.check(ctx, P, C, known, 330)

    # loops
    pr = loops.Progress(A, dyn=(r"ops::Fn(Mut|Once)?::call", "parser::parse_statement"), known={"ExpressionParser::advance": "success"})
    n = 0
    for p, b in sorted(A.crate.bodies.items()):
        k = pr.loops(b)
        n += k
        idle = pr.idle(b)
        for line, comp in idle:
            ctx.fail(L, f"{short(p)}:loop", f"{short(p)} can go round without consuming anything", f"{b.file}:{line}")
        if k and not idle:
            ctx.ok(L, f"{short(p)}: {k} loops progress")
    ctx.count("loops", n, 250, L)
    E = q.need("ExpressionParser::advance", L)
    if E:
        up = E.when(r"^set ExpressionParser\.current$")
        some = E.lit(r"^p1\.current < (Vec|\[T\])::len\(p1\.tokens\)$|^(\[T\]|Vec)::get\(p1\.tokens,\s*p1\.current\)\?$")
        q.same(L, E, up, some, "advance", "advance does not move on exactly when there is a token")
    b = ks.get("parser::parse_statement")
    ctx.expect(L, b is not None and pr.kind(b) in ("success", "always"), "statement", "a statement can be parsed without consuming a line", f"{b.file}:{b.line}" if b else None)

    # recursion
    comps = cycles(A)
    seen = 0
    for comp in comps:
        nm = sorted(short(p) for p in comp)
        at = A.crate.bodies[comp[0]]
        at = f"{at.file}:{at.line}"
        parse = [x for x in nm if re.search(PARSE, x)]
        if nm == ["includes::parse_recursive"]:
            E = q.need(nm[0], D)
            rec = E.when(r"^call includes::parse_recursive$")
            lit = [a for a in E.atoms(r"^\d+ < p5$")]
            ctx.expect(D, len(lit) == 1 and int(lit[0].split()[0]) <= 64, "include:bound", f"includes are bounded by {lit}", E.at)
            if lit:
                q.never(D, E, E.B.AND(rec, E.lit("^" + re.escape(lit[0]) + "$")), "include:depth", "includes nest past the bound")
            vs = [v for _, v, _ in E.sites(r"^call includes::parse_recursive$")]
            ctx.expect(D, vs and all(re.search(r", \(?(1 Add p5|p5 Add 1)\)?$", v) for v in vs), "include:deeper", f"an include does not count its depth: {[v[-40:] for v in vs]}", E.at)
            seen += 1
        elif parse:
            bodies = [A.crate.bodies[p] for p in comp]
            ok, why = set(), {}
            for b in bodies:
                g, w = guarded(pr, b, set(comp))
                if g:
                    ok.add(b.path)
                why[short(b.path)] = w
            left = [c for c in cycles_without(A, set(comp), ok)]
            ctx.expect(D, not left, f"parser:{nm[0]}", f"the parser recurses through {[short(p) for p in left[0]] if left else ''} without holding a level of nesting ({'; '.join(f'{k} {v}' for k, v in why.items() if v and 'asks no' not in v)})", at)
            seen += 1
        else:
            bad = [x for x in nm if x not in TREE and not re.search(TREE_RE, x) and A.I.is_known(A.crate.bodies[[p for p in comp if short(p) == x][0]])]
            anchor = [x for x in nm if x in TREE or re.search(TREE_RE, x)]
            ctx.expect(D, anchor and not bad, f"cycle:{nm[0]}", f"unreviewed recursion through {', '.join(nm)}", at)
    ctx.count("parser recursions", seen, 5, D)
    b = ks.get("parser::parse_statement")
    if b:
        g, w = guarded(pr, b, {b.path})
        ctx.expect(D, g, "parser:statement", f"parse_statement {w}", f"{b.file}:{b.line}")
    E = q.need("Nesting::enter", D)
    if E:
        lit = E.atoms(r"^\d+ < LocalKey::(get|with)\(")
        ctx.expect(D, len(lit) == 1 and int(lit[0].split()[0]) <= 128, "nesting:bound", f"the nesting is bounded by {lit}", E.at)
        if lit:
            q.same(D, E, E.when("^return$", "^Err"), E.lit("^" + re.escape(lit[0]) + "$"), "nesting:err", "too deep nesting is not exactly an Err")

    # what leaves the compiler
    E = q.need("emitter::story_to_json_string", O)
    if E:
        r = E.when("^return$", "^(?!Err)")
        q.occurs(O, E, r, "returns", "nothing is returned")
        q.implies(O, E, r, "references", "a story is returned with unchecked references", r"^resolve::check_references\(emitter::story_to_json_value\(p1,p2\)\)\?$")
        q.implies(O, E, r, "depth", "a story is returned that nests deeper than the loaders read", r"!^126 < nesting::json_depth\(emitter::story_to_json_value\(p1,p2\)\)$")
        ctx.expect(O, all(v == "serde_json::to_string(emitter::story_to_json_value(p1,p2))" for _, v, f in E.sites("^return$") if not v.startswith("Err")), "same", "what is returned is not what was checked", E.at)
    E = q.need("Compiler::compile_with_file_handler", O)
    if E:
        r = E.when("^return$", "^(?!Err)")
        q.occurs(O, E, r, "compile-returns", "nothing is returned")
        q.implies(O, E, r, "validated", "a story is returned that was not validated", r"^validator::validate\(consts::resolve\(includes::parse_story_with_includes\(.*\)\?$|^validator::validate\(.*\)\?$")
        ctx.expect(O, all(v.startswith("emitter::story_to_json_string(") for _, v, f in E.sites("^return$") if not v.startswith("Err")), "compile-same", "what is returned is not the checked story", E.at)
    q.subset(O, callers(A, "emitter::story_to_json_value"), {"emitter::story_to_json_string"}, "unchecked", "a story is emitted unchecked by")

    # references
    consts = strings(A, r"^emitter::")
    for k in sorted(consts):
        if re.match(r"^(->|f\(\)|->t->|x\(\)|\^->|\^var|CNT\?|VAR\?|VAR=|temp=|\*)$", k) or (k in KEYS):
            ctx.ok(K, f"emitter key {k}")
    ck = strings(A, r"^resolve::check_object$")
    for k in sorted(PATH_KEYS | NAME_KEYS | {"list"}):
        ctx.expect(K, k in ck, f"key:{k}", f"the reference check does not look at {k}")
    contracts(ctx, K, C, [r"^resolve::", r"^nesting::", r"^validator::validate$", r"^ValidationContext::(build|validate_story|check_target|check_function_call_target|check_variable_divert_target|check_divert_target_arg|validate_flow_name|validate_stitch_name)$"], 12, text=ctx.rules[K]["text"])
    for fn, inner in (("resolve::check_container", r"resolve::check_container"), ("resolve::check_container", r"resolve::check_object")):
        E = q.need(fn, K)
        if E:
            vs = [v for _, v, _ in E.sites(rf"^call {inner}$")]
            ctx.expect(K, vs, f"{fn}:{inner}", f"{fn} never calls {inner}", E.at)

    # tokens
    rq = Q(ctx, "bladeink")
    tokens.readers(rq, T)
    emitted = {v for p, v in consts.items() for v in [p]}
    for k in sorted(tokens.COMMANDS) + sorted(tokens.OPS):
        pass
    words = pushed(A)
    ctx.count("token constants the emitter pushes", len(words), 30, T)
    for w, at in sorted(words.items()):
        fine = w in tokens.COMMANDS or w in tokens.OPS or w in ("\\n", "\n", "<>", "void", "L^") or w.startswith("^") or w in ("0", "g-0", "s", "loop", "$r", "$r1", "$r2", "#f", "#n")
        ctx.expect(T, fine, f"token:{w}", f"the emitter writes {w!r}, which no loader reads", at)

    # lines
    contracts(ctx, E_, C, [r"^Parser::parse$", r"^CompilerError::(with_line|with_line_override|with_file)$", r"^parser::split_lines$"], 4, text=ctx.rules[E_]["text"], only=r"with_line|^return$|map_err")
    ok = set()
    for c in callers(A, "CompilerError::with_line") + callers(A, "CompilerError::with_line_override"):
        ctx.expect(E_, c in ("Parser::parse", "parser::parse_statement"), f"with_line:{c}", f"{c} names lines too")

    # determinism
    hash_order(ctx, A, N, {"ValidationContext::build": "collected into an ordered set"})
    ctx.count("functions scanned for hash order", len(A.crate.bodies), 400, N)


HASH = r"^(?:std::collections::|hashbrown::)?(?:hash_(?:map|set)|hash::(?:map|set)|HashMap|HashSet).*::(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|retain|union|intersection|difference|symmetric_difference|next)$"


def hash_order(ctx, A, rid, allowed):
    """every walk over a hash table must be reviewed as order-independent"""
    n = 0
    for p, b in sorted(A.crate.bodies.items()):
        for i in sorted(b.reach):
            t = b.blocks[i]["t"]
            if t[0] != "call" or not isinstance(t[1], dict):
                continue
            c = t[1].get("r") or t[1].get("p") or ""
            self_ty = str(t[1].get("self"))
            walk = re.search(r"::(iter|iter_mut|keys|values|values_mut|into_iter|into_keys|into_values|drain|retain|union|intersection|difference|symmetric_difference)$", c)
            if walk and re.search(r"collections::(hash_)?(map|set)?:*Hash(Map|Set)|Hash(Map|Set)", self_ty + c):
                n += 1
                fn = short(p.split("::{closure")[0])
                line = next((x for x in t[2:] if isinstance(x, int) and x >= b.line), b.line)
                ctx.expect(rid, fn in allowed, f"{fn}:{walk[1]}", f"{fn} walks over a hash table in no fixed order", f"{b.file}:{line}")
    return n


def cycles_without(A, comp, cut):
    """recursion left inside comp when the functions of cut are taken out"""
    base = lambda p: p.split("::{closure")[0]
    nodes = comp - cut
    G = {x: set() for x in nodes}
    for p, es in A.cg.edges.items():
        if base(p) in nodes:
            for c, _ in es:
                if base(c) in nodes and not (base(c) == base(p) and "{closure" in c):
                    G[base(p)].add(base(c))
    out = []
    for x in sorted(nodes):
        seen, st = set(), list(G[x])
        while st:
            y = st.pop()
            if y not in seen:
                seen.add(y)
                st += G[y]
        if x in seen:
            out.append([x])
    return out


def _strs(o):
    if isinstance(o, dict):
        if isinstance(o.get("v"), str):
            yield o["v"]
        for v in o.values():
            yield from _strs(v)
    elif isinstance(o, list):
        for e in o:
            yield from _strs(e)


def strings(A, pat):
    """string constants of the functions (their promoted constants and closures included) -> where"""
    out = {}
    for p, b in A.crate.bodies.items():
        if re.search(pat, short(re.sub(r"::\{.*", "", p))) or re.search(pat, p):
            for i in b.reach:
                for x in _strs(b.blocks[i]["s"]) if True else ():
                    out.setdefault(x, f"{b.file}:{b.line}")
                for x in _strs(b.blocks[i]["t"]):
                    out.setdefault(x, f"{b.file}:{b.line}")
    return out


def pushed(A):
    """constants that become JSON strings of the story on their own"""
    out = {}
    for k, b in contract.keys(A).items():
        if not re.search(r"^emitter::|^EmitContainer", k) or not A.I.is_known(b):
            continue
        for t, d in contract.summary_of(A, b)["ev"].items():
            for v in d:
                for m in re.findall(r'to_value\("((?:[^"\\]|\\.)*)"\)', v):
                    out.setdefault(m, f"{b.file}:{b.line}")
    return out
