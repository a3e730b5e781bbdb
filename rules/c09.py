"""C09: a rejected host call leaves no trace: checks come before changes, with exactly the acceptance conditions, on every public entry point."""
import re
from common import Q
from eff import callers, contract
from names import short

ASYNC = "!" + r"^p1\.async_continue_active$"
# calls without observable effect (caches, diagnostics)
SILENT = re.compile(r"^call (Story::(content_at_path|if_async_we_cant|can_continue|get_current_choices)|Container::content_at_path|Object::get_path|CallStack::get_callstack_trace|StoryState::(check_arguments|get_current_text|get_current_tags)|Path::\w+|Story::build_string_of_hierarchy|Story::validate_external_bindings_(container|rtobject))$")
CH = r"^empty\(p1\.state\.current_errors\)$"
# entry point -> (what may only happen when accepted, literals that all have to hold)
ACCEPT = {
    "Story::choose_choice_index": [ASYNC, r"^p2 < Vec::len\(Story::get_current_choices\(p1\)\)$"],
    "Story::bind_external_function": [ASYNC, r"!^p1\.externals\[p2\]\?$"],
    "Story::unbind_external_function": [ASYNC, r"^p1\.externals\[p2\]\?$"],
    "Story::switch_flow": [ASYNC],
    "Story::remove_flow": [ASYNC],
    "Story::switch_to_default_flow": [ASYNC],
    "Story::choose_path_string": [ASYNC, r"!^empty\(Path::new_with_components_string\(p2\)\.components\)$", r"!^(Story::content_at_path\(p1,|Container::content_at_path\(p1\.main_content_container,)Path::new_with_components_string\(p2\)(,0,-1)?\)\.approximate$", r"^StoryState::check_arguments\(p4\)\?$"],
    "Story::evaluate_function": [ASYNC, r"!^empty\(str::trim\(p2\)\)$", r"^(p1\.main_content_container\.named_content\[p2\]|Story::knot_container_with_name\(p1,p2\))\?$", r"^StoryState::check_arguments\(p3\)\?$"],
    "Story::set_variable": [ASYNC],
    "Story::load_state": [ASYNC],
    "Story::reset_state": [ASYNC],
}
INNER = ["VariablesState::set", "StoryState::remove_flow_internal", "StoryState::check_arguments", "Story::if_async_we_cant", "Story::validate_external_bindings"]


def check(ctx):
    q = Q(ctx)
    A, X = q.A, ctx.expect
    NT, AC, CO, PR, NE, EX = "trace", "accept", "continue", "propagate", "named", "entry"
    ctx.rule(NT, "on no path of a public method or of a check below it is a value written, a collection changed or an effectful function called when the method answers with an error of its own")
    ctx.rule(AC, "each call changes something exactly under its acceptance condition, and answers Err otherwise")
    ctx.rule(CO, "continuing is refused before anything is touched, exactly when no continue is unfinished and there is nothing to continue")
    ctx.rule(PR, "a refusal decided by a function called on the way happens before the caller's own changes")
    ctx.rule(NE, "what a name must be for the call to be accepted: declared variable, existing flow, content found without approximation")
    ctx.rule(EX, "every public method that can fail is covered")

    pub = []
    for b in A.fns():
        n = short(b.path)
        if re.match(r"^Story::\w+$", n) and b.pub and "Result<" in b.local_ty(0) and n != "Story::new":
            pub.append(n)
    ctx.count("public methods that can fail", len(pub), 18, EX)
    for n in sorted(set(pub) | set(INNER)):
        E = q.need(n, EX)
        if not E:
            continue
        rej = E.when("^return$", r"^Err\(")
        cnt = 0
        for t, v, f in E.sites(r"^(set|mut|call\*?|io)\b"):
            if SILENT.match(t):
                continue
            cnt += 1
            q.never(NT, E, E.B.AND(f, rej), f"{n}:{t}", f"{t} ({v[:80]}) happens although {n} answers with an error")
        ctx.ok(NT, f"{n}: {cnt} effects")
    for n, lits in ACCEPT.items():
        E = q.need(n, AC)
        if not E:
            continue
        B = E.B
        ok = 1
        for l in lits:
            f = E.lit(l)
            X(AC, f != 0, f"{n}:{l[:60]}", f"{n} no longer tests {l}", E.at)
            ok = B.AND(ok, f)
        if n == "Story::switch_flow":
            ok = B.AND(ok, B.NOT(E.lit(r"^p1\.async_saving$")))
        if n == "Story::choose_path_string":
            # a jump out of a running function without a call-stack reset is refused
            ok = B.AND(ok, B.OR(E.lit("^p3$"), E.lit(r"!push_pop_type is Function$")))
        eff = 0
        for t, v, f in E.sites(r"^(set|mut|call\*?|io)\b"):
            if SILENT.match(t):
                continue
            eff = B.OR(eff, f)
            q.implies(AC, E, f, f"{n}:{t}", f"{t} happens in a call that has to be refused", ok)
        q.implies(AC, E, B.AND(ok, B.NOT(eff)), f"{n}:does", "an acceptable call does nothing")
        rej = E.when("^return$", r"^Err\(")
        # what is refused by a called check answers with that check's error
        called = 0
        for l in lits:
            if l.endswith(r"\)\?$") and "::" in l:
                called = B.OR(called, E.lit("!" + l))
        q.implies(AC, E, B.AND(B.NOT(ok), B.NOT(rej)), f"{n}:err", "a call that has to be refused does not answer with an error", called)

    # continuing
    E = q.need("Story::continue_internal", CO)
    if E:
        B = E.B
        running = E.lit(r"^p1\.async_continue_active$")
        can = B.AND(E.lit(r"current_pointer\.container\?$"), E.lit(CH))
        ok = B.OR(running, can)
        for t, v, f in E.sites(r"^(set|mut|call\*?|io|loop)\b"):
            if SILENT.match(t):
                continue
            q.implies(CO, E, f, t, f"{t} happens in a continue that has to be refused", ok)
        rej = E.when("^return$", r"^Err\(")
        q.implies(CO, E, B.AND(B.NOT(ok), B.NOT(rej)), "err", "continuing although there is nothing to continue is not an error")
    E = q.need("Story::can_continue", CO)
    if E:
        ps = {v for _, v, _ in E.sites("^return$")}
        X(CO, bool(ps), "can", "can_continue returns nothing", E.at)
    E = q.need("Story::continue_async", CO)
    if E:
        B = E.B
        c = E.when(r"^call Story::continue_internal$")
        q.same(CO, E, c, B.OR(E.lit(r"^p1\.has_validated_externals$"), E.lit(r"^Story::validate_external_bindings\(p1\)\?$")), "validated", "content runs exactly once the bindings were validated")
    E = q.need("Story::continue_maximally", CO)
    if E:
        q.implies(CO, E, E.when(r"^call Story::cont$"), "maximally", "a time-limited continue is taken over by continue_maximally", ASYNC)

    # refusals by callees: nothing persistent before
    for n, c in (("Story::set_variable", r"^VariablesState::set\("), ("Story::choose_path_string", r"^StoryState::check_arguments\("), ("Story::evaluate_function", r"^StoryState::check_arguments\(")):
        E = q.need(n, PR)
        if not E:
            continue
        bad = E.lit("!" + c + r".*\)\?$")
        X(PR, bad != 0, f"{n}:checked", f"{n} ignores a refusal", E.at)
        for t, v, f in E.sites(r"^(set|mut|call\*?|io)\b"):
            if SILENT.match(t) or re.match("^call " + c[1:].split("\\")[0], t):
                continue
            q.never(PR, E, E.B.AND(f, bad), f"{n}:{t}", f"{t} happens although the call was refused further down")
    # names
    E = q.need("StoryState::remove_flow_internal", NE)
    if E:
        B = E.B
        dflt = E.lit(r"^p2 == static:story_state::DEFAULT_FLOW_NAME$")
        cur = E.lit(r"^p1\.current_flow\.name == p2$")
        ex = B.OR(cur, E.lit(r"^(Option::is_some_and\(p1\.named_flows,.*\)|p1\.named_flows\[p2\]\?)$"))
        q.same(NE, E, E.when("^return$", r"^Err\("), B.OR(dflt, B.NOT(ex)), "flow", "removing a flow is not refused exactly for the default flow and unknown names")
    E = q.need("VariablesState::set", NE)
    if E:
        dec = E.lit(r"^p1\.default_global_variables\[p2\]\?$")
        q.same(NE, E, E.when("^return$", r"^Err\("), E.B.NOT(dec), "variable", "assigning is not refused exactly for undeclared variables")
    E = q.need("Story::observe_variable", NE)
    if E:
        B = E.B
        dec = B.OR(E.lit(r"^p1\.state\.variables_state\.global_variables\[p2\]\?$"), E.lit(r"^p1\.state\.variables_state\.default_global_variables\[p2\]\?$"))
        q.same(NE, E, E.when("^return$", r"^Err\("), B.OR(B.NOT(dec), E.lit(r"^p1\.async_continue_active$")), "observe", "observing is not refused exactly for undeclared variables")
    E = q.need("Story::remove_variable_observer", NE)
    if E:
        B = E.B
        named = E.lit(r"^p3\?$")
        here = E.lit(r"^Option::is_some_and\(p1\.variable_observers\[p3\],")
        some = E.lit(r"^Iterator::any\(((HashMap::)?values\()?p1\.variable_observers")
        q.same(NE, E, E.when("^return$", r"^Err\(BadArgument"), B.AND(E.lit(ASYNC), B.OR(B.AND(named, B.NOT(here)), B.AND(B.NOT(named), B.NOT(some)))), "observer", "removing an observer is not refused exactly when it is not registered")
    E = q.need("Story::tags_at_start_of_flow_container_with_path_string", NE)
    if E:
        X(NE, not [x for x in E.S["bag"] if x.endswith(("::unwrap", "::expect"))], "tags", "asking for the tags of a path that is no container can panic", E.at)
