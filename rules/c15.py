"""C15: malformed story or save input is an Err: no panic, bounded depth, every reading loop consumes input."""
import re

import contract
import loops
import psites
from common import Q
from eff import callers, contracts, cycles, fresh, reach
from names import short

ROOTS = ["json_read::load_from_string", "json_read_stream::load_from_string", "StoryState::load_json", "StoryState::load_json_obj", "Flow::from_json", "Flow::load_flow_choice_threads", "CallStack::load_json", "Thread::from_json", "VariablesState::load_json"]
# decided elsewhere: read_value either takes a bracket or a token of at least one character, or is Err; the depth is no progress
KNOWN = {"JsonTokenizer::read_value": "success", "JsonTokenizer::enter": None, "JsonTokenizer::leave": None}
REC = [{"json_read::jarray_to_container", "json_read::jarray_to_runtime_obj_list", "json_read::jtoken_to_runtime_object"},
       {"json_read_stream::jarray_to_container", "json_read_stream::jarray_to_runtime_obj_list", "json_read_stream::jtoken_to_runtime_object", "json_read_stream::token_at_depth_to_runtime_object"}]


def check(ctx):
    q = Q(ctx)
    A = fresh(ctx.world.A["bladeink"])
    ks = contract.keys(A)
    P, L, D, R, S, V, Z = "no-panic", "progress", "depth", "recursion", "serde", "errors", "reset"
    ctx.rule(P, "every construct that can panic in a function that runs while a story or save is loaded is discharged by its own guards or is a reviewed one under no weaker guards")
    ctx.rule(L, "every loop that runs while loading consumes input, an iterator or a counter on each way round, so that loading ends")
    ctx.rule(D, "the streaming reader refuses arrays and objects nested deeper than a fixed bound before it goes into them")
    ctx.rule(R, "the only recursion while loading is over JSON nesting")
    ctx.rule(S, "JSON text is parsed by serde_json's own depth-limited from_str, whose failure is an Err")
    ctx.rule(V, "the returned values and Errs of the loading functions occur under the reviewed conditions")
    ctx.rule(Z, "a failed load leaves nothing behind that a reset does not replace")
    run = reach(A, ROOTS)
    names = [k for k, b in ks.items() if A.I.is_known(b) and short(b.path) in run]
    psites.check(ctx, P, "bladeink", names, 120)

    # loops
    pr = loops.Progress(A, fields=("lookahead",), known=KNOWN)
    n = 0
    for p, b in sorted(A.crate.bodies.items()):
        if short(p) not in run:
            continue
        n += pr.loops(b)
        idle = pr.idle(b)
        for line, comp in idle:
            ctx.fail(L, f"{short(p)}:loop", f"{short(p)} can go round without consuming anything", f"{b.file}:{line}")
        if not idle and pr.loops(b):
            ctx.ok(L, f"{short(p)}: {pr.loops(b)} loops progress")
    ctx.count("loading loops", n, 25, L)

    # depth
    J = "json_read_stream::"
    E = q.need(J + "jtoken_to_runtime_object", D)
    if E:
        inner = E.when(r"^call json_read_stream::token_at_depth_to_runtime_object$")
        q.occurs(D, E, inner, "inner", "nothing is read")
        q.implies(D, E, inner, "entered", "an array or object is gone into without asking the depth", r"^JsonTokenizer::enter\(p1\)\?$", E.B.AND(E.lit("!^p2 is Array$"), E.lit("!^p2 is Object$")))
        ctx.expect(D, not E.can_follow(r"^call json_read_stream::token_at_depth", r"^call JsonTokenizer::enter$"), "order", "the depth is asked after the content was read", E.at)
        lv = E.when(r"^call JsonTokenizer::leave$")
        q.implies(D, E, lv, "leave", "a level is left that was not entered", r"^JsonTokenizer::enter\(p1\)\?$")
    q.subset(D, callers(A, J + "token_at_depth_to_runtime_object"), {J + "jtoken_to_runtime_object"}, "bypass", "nested content is read past the depth check by")
    q.subset(D, callers(A, J + "jarray_to_container"), {J + "token_at_depth_to_runtime_object"}, "bypass-array", "an array is read past the depth check by")
    E = q.need("JsonTokenizer::enter", D)
    if E:
        at = [a for a in E.atoms(r"^\d+′? < p1\.depth$")]
        ctx.expect(D, len(at) == 1 and int(re.match(r"\d+", at[0])[0]) <= 128, "bound", f"the depth is compared by {at}", E.at)
        up = E.sites(r"^set JsonTokenizer\.depth$")
        ctx.expect(D, len(up) == 1 and re.sub(r"[()\s]", "", up[0][1]) in ("1Addp1.depth", "p1.depthAdd1"), "counted", f"the depth becomes {[v for _, v, _ in up]}", E.at)
        q.same(D, E, E.when("^return$", "^Err"), E.lit(r"^\d+′? < p1\.depth$"), "err", "the depth check is not an Err exactly past the bound")
        q.never(D, E, E.B.NOT(E.when(r"^set JsonTokenizer\.depth$")), "always", "a level is entered uncounted")
    E = q.need("JsonTokenizer::leave", D)
    if E:
        v = [v for _, v, _ in E.sites(r"^set JsonTokenizer\.depth$")]
        ctx.expect(D, len(v) == 1 and re.match(r"^(usize::saturating_sub\(p1\.depth,\s*1\)|\(?p1\.depth Sub 1\)?)$", v[0]) is not None, "leave-one", f"leaving a level makes the depth {v}", E.at)

    for comp in cycles(A):
        nm = {short(p) for p in comp}
        if nm & run:
            known = {x for x in nm if A.I.is_known(A.crate.bodies[[p for p in comp if short(p) == x][0]])}
            ctx.expect(R, any(known <= r for r in REC), f"cycle:{'+'.join(sorted(nm))}", f"unreviewed recursion through {', '.join(sorted(nm))}")

    # serde
    n = 0
    for p, b in A.crate.bodies.items():
        for i in b.reach:
            t = b.blocks[i]["t"]
            if t[0] == "call" and isinstance(t[1], dict):
                c = t[1].get("r") or t[1].get("p") or ""
                if re.search(r"disable_recursion_limit|Deserializer.*::(new|from_str|from_reader|from_slice)$", c):
                    ctx.fail(S, f"{short(p)}:{c[:60]}", f"{short(p)} reads JSON through {c}", f"{b.file}:{b.line}")
                if re.search(r"serde_json::(\w+::)*from_(str|slice|reader)$", c):
                    n += 1
                    ctx.ok(S, f"{short(p)} uses {c}")
    ctx.count("JSON entry points", n, 2, S)

    # errors
    pats = [r"^json_read::", r"^json_read_stream::", r"^JsonTokenizer::", r"^JsonValue::", r"^Number::", r"(^|::)(load_json|load_json_obj|from_json|load_flow_choice_threads|new_from_json|from_value)$", r"^Story::(load_state|new)$"]
    contracts(ctx, V, "bladeink", pats, 40, text=ctx.rules[V]["text"], only=r"^return$")

    # reset after a failed load
    E = q.need("Story::reset_state", Z)
    if E:
        ok = E.B.AND(E.lit(r"!^p1\.async_continue_active$"), 1)
        q.never(Z, E, E.B.AND(ok, E.B.NOT(E.when(r"^set Story\.state$", r"^StoryState::new\("))), "replaced", "a reset can keep the state a failed load left")
    E = q.need("Story::load_state", Z)
    if E:
        other = [t for t, _, _ in E.sites(r"^(set|mut) (?!StoryState|Flow|CallStack|Thread|Element|VariablesState)")]
        ctx.expect(Z, not other, "only-state", f"loading also changes {other}", E.at)
