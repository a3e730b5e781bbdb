"""C17: reset builds the state anew; what outlives it is quiescent or registered by the host; jumps abandon the call stack only."""
import re
from common import Q
from eff import Eff, adt_fields, callers, contract, fields_of, writers

# field -> the value a story starts with
NULLP = 'Pointer{container:"named:pointer::NULL".container, index:"named:pointer::NULL".index}'
INIT = {
    "StoryState": {
        "current_flow": r"^Flow::new\(static:story_state::DEFAULT_FLOW_NAME,p1\)$", "did_safe_exit": "^False$", "output_stream_text_dirty": "^True$",
        "output_stream_tags_dirty": "^True$", "variables_state": r"^VariablesState(::new\(|\{)", "alive_flow_names_dirty": "^True$", "evaluation_stack": r"^Vec::",
        "main_content_container": "^p1$", "current_errors": r"^Vec::(new|with_capacity)\(", "current_warnings": r"^Vec::(new|with_capacity)\(", "current_text": "^None$", "patch": "^None$",
        "named_flows": "^None$", "diverted_pointer": re.escape(NULLP) + "|pointer::NULL", "visit_counts": r"^HashMap::", "turn_indices": "^HashMap::",
        "current_turn_index": "^-1$", "story_seed": "random_range|^p3$", "previous_random": "^0$", "current_tags": "^Vec::(new|with_capacity)", "list_definitions": "^p2$"},
    "Flow": {"name": "^p1$", "callstack": r"CallStack::new\(p2\)", "output_stream": "^Vec::", "current_choices": "^Vec::"},
    "VariablesState": {"global_variables": "^HashMap::", "default_global_variables": "^HashMap::", "batch_observing_variable_changes": "^False$", "callstack": "^p1$",
                       "changed_variables_for_batch_obs": "^None$", "patch": "^None$", "list_defs_origin": "^p2$"},
    "CallStack": {"thread_counter": "^0$", "start_of_root": r"^Pointer\{container:p1, index:0\}$|^Pointer::start_of\(p1\)$", "threads": "^Vec::"},
    "Thread": {"callstack": "^Vec::", "previous_pointer": "pointer::NULL", "thread_index": "^0$"},
    "Element": {"current_pointer": r"start_of_root", "in_expression_evaluation": "^False$", "temporary_variables": "^HashMap::", "push_pop_type": "Tunnel",
                "evaluation_stack_height_when_pushed": "^0$", "function_start_in_output_stream": "^0$"},
    "Story": {"state": r"^StoryState::new\(", "temporary_evaluation_container": "^None$", "recursive_continue_count": "^0$", "async_continue_active": "^False$", "async_saving": "^False$",
              "warnings_reported": "^False$", "prev_containers": "^Vec::", "on_error": "^None$", "state_snapshot_at_last_new_line": "^None$", "variable_observers": "^HashMap::",
              "has_validated_externals": "^False$", "allow_external_function_fallbacks": "^False$", "saw_lookahead_unsafe_function_after_new_line": "^False$", "externals": "^HashMap::",
              "main_content_container": "load_from_string", "list_definitions": "load_from_string"},
}
# fields of Story that outlive a reset -> the functions that may change them: registrations by the host, or engine bookkeeping the rule `quiet` proves back at rest between calls
LIVES = {
    "main_content_container": [], "list_definitions": [], "temporary_evaluation_container": [], "async_saving": [],
    "state": ["Story::reset_state", "Story::restore_state_snapshot", "Story::state_snapshot"],
    "on_error": ["Story::continue_internal", "Story::set_error_handler"],
    "variable_observers": ["Story::observe_variable", "Story::remove_variable_observer"],
    "externals": ["Story::bind_external_function", "Story::unbind_external_function"],
    "allow_external_function_fallbacks": ["Story::set_allow_external_function_fallbacks"],
    "has_validated_externals": ["Story::validate_external_bindings"],
    "recursive_continue_count": ["Story::continue_internal"],
    "async_continue_active": ["Story::continue_internal"],
    "warnings_reported": ["Story::continue_internal"],
    "prev_containers": ["Story::visit_changed_containers_due_to_divert"],
    "state_snapshot_at_last_new_line": ["Story::continue_single_step", "Story::discard_snapshot", "Story::restore_state_snapshot", "Story::state_snapshot"],
    "saw_lookahead_unsafe_function_after_new_line": ["Story::call_external_function", "Story::continue_internal"],
}
ASYNC = r"^p1\.async_continue_active$"


def check(ctx):
    q = Q(ctx)
    A = q.A
    X = ctx.expect
    RE, FR, KE, QU, GL, JU = "reset", "fresh", "kept", "quiet", "globals", "jump"
    ctx.rule(RE, "reset replaces the whole state by a new StoryState of the same program and then runs the same globals initialisation as construction, whenever no time-limited continue is unfinished")
    ctx.rule(FR, "every field of a new state, flow, call stack, thread, element and variables state has its initial value; no field is left out")
    ctx.rule(KE, "what outlives a reset: every field of Story is either host registration written only by its registration calls, or engine bookkeeping")
    ctx.rule(QU, "engine bookkeeping on Story is back at rest whenever the host can call reset")
    ctx.rule(GL, "globals initialisation runs the declarations iff the program has them, restores the position, and always records every global as default")
    ctx.rule(JU, "a jump with a call-stack reset drops all threads and frames, and nothing of variables or counts")

    E = q.need("Story::reset_state", RE)
    if E:
        free = E.lit("!" + ASYNC)
        st = E.when(r"^set Story\.state$")
        q.same(RE, E, st, free, "state", "the state is not replaced exactly when no continue is unfinished")
        for t, v, f in E.sites(r"^set Story\.state$"):
            v = contract.full(v)
            X(RE, re.match(r"^StoryState::new\(p1\.main_content_container,\s*p1\.list_definitions\)$", v) is not None, "state-value", f"the state becomes {v[:120]} instead of a new one", E.at)
        g = E.when(r"^call Story::reset_globals$", r"^p1$")
        q.same(RE, E, g, free, "globals", "the globals are not initialised on every reset")
        X(RE, not E.can_follow(r"^call Story::reset_globals$", r"^set Story\.state$"), "order", "the state is replaced after the globals were initialised", E.at)
        q.implies(RE, E, E.when("^return$", "Err"), "err", "reset fails although no continue is unfinished", ASYNC)
        other = [t for t, _, _ in E.sites(r"^(set|mut|call) ") if not re.match(r"^(set Story\.state|call (Story::(reset_globals|if_async_we_cant)|StoryState::new))$", t)]
        X(RE, not other, "nothing-else", f"reset also does {other}", E.at)
    N = q.need("Story::new", RE)
    if N:
        X(RE, any(re.match(r"^call Story::reset_globals$", t) for t, _, _ in N.sites("^call Story::")), "new-globals", "construction does not initialise the globals as reset does", N.at)

    # initial values
    made = {"StoryState": ("StoryState::new", "^return$"), "Flow": ("Flow::new", "^return$"), "VariablesState": ("VariablesState::new", "^return$"), "CallStack": ("CallStack::new", "^return$"),
            "Thread": ("CallStack::reset", r"^mut CallStack\.threads push$"), "Element": ("CallStack::reset", r"^mut Thread\.callstack push$"), "Story": ("Story::new", "^return$")}
    for adt, (fn, tre) in made.items():
        E = q.need(fn, FR)
        if not E:
            continue
        names = adt_fields(A, adt)
        X(FR, bool(names), f"type:{adt}", f"struct {adt} not found")
        vals = [(v, f) for _, v, f in E.sites(tre) if adt + "{" in contract.full(v)[:40] or len(E.sites(tre)) == 1]
        X(FR, bool(vals), f"built:{adt}", f"{fn} does not build a {adt}", E.at)
        for v, f in vals:
            got = fields_of(v)
            for n in names:
                want = INIT[adt].get(n)
                if want is None:
                    X(FR, False, f"unknown:{adt}.{n}", f"{adt}.{n} is not a field whose initial value was reviewed: reset and construction may disagree on it", E.at)
                    continue
                x = got.get(n)
                X(FR, x is not None and re.search(want, x) is not None, f"{adt}.{n}", f"{fn} starts {adt}.{n} as {x} (expected {want})", E.at)
    for n in ("CallStack::reset", "CallStack::new", "StoryState::new"):
        E = q.need(n, FR)
        if E:
            for t, _, f in E.sites({"CallStack::reset": r"^mut (CallStack\.threads (clear|push)|Thread\.callstack push)$", "CallStack::new": "^call CallStack::reset$", "StoryState::new": "^call StoryState::go_to_start$"}[n]):
                X(FR, f == 1, f"always:{n}:{t}", f"{t} is conditional", E.at)
    X(FR, len(Eff(A, "CallStack::reset").sites(r"^mut CallStack\.threads push$")) == 1, "one-thread", "a reset call stack does not hold exactly one thread")
    E = q.need("StoryState::go_to_start", FR)
    if E:
        v = [contract.full(v) for _, v, f in E.sites(r"current_pointer$") if f == 1]
        X(FR, any(re.search(r"Pointer\{container:p1\.main_content_container, index:0\}|start_of\(p1\.main_content_container\)", x) for x in v), "start", f"the start position is {v}", E.at)

    # what outlives a reset
    fs = adt_fields(A, "Story")
    ctx.count("fields of Story", len(fs), 14, KE)
    for n in fs:
        w = writers(A, rf"^(set|mut) Story\.{n}\b")
        if n not in LIVES:
            X(KE, not w, f"unknown:{n}", f"Story.{n} outlives a reset, was not reviewed and is written by {w}")
            continue
        q.subset(KE, w, LIVES[n], f"writer:{n}", f"Story.{n} outlives a reset and is also written by")
        ctx.ok(KE, f"Story.{n}: {len(w)} writers")

    # bookkeeping at rest
    E = q.need("Story::continue_internal", QU)
    if E:
        up = E.when(r"^set Story\.recursive_continue_count$", "Add")
        dn = E.when(r"^set Story\.recursive_continue_count$", "Sub")
        q.same(QU, E, up, dn, "recursion", "the nesting count is not lowered on every way out")
        q.occurs(QU, E, up, "recursion-up", "the nesting count is never raised")
        for t, v, f in E.sites(r"^set Story\.recursive_continue_count$"):
            X(QU, re.fullmatch(r"\((1 Add p1\.recursive_continue_count|p1\.recursive_continue_count (Add|Sub) 1)\)", v.replace("′", "")) is not None, "recursion-step", f"the nesting count becomes {v}", E.at)
        s = E.when(r"^set Story\.saw_lookahead_unsafe_function_after_new_line$", "^False$")
        q.same(QU, E, up, s, "deferral", "the deferral flag is not lowered by every continue")
    E = q.need("Story::visit_changed_containers_due_to_divert", QU)
    if E:
        c = E.when(r"^(mut Story\.prev_containers clear|set Story\.prev_containers)$")
        p = E.when(r"^mut Story\.prev_containers (push|insert|extend)")
        q.implies(QU, E, p, "ancestors", "the ancestor list grows on top of an earlier divert's", c)
        X(QU, not E.can_follow(r"^mut Story\.prev_containers push", r"^mut Story\.prev_containers clear"), "ancestors-order", "the ancestor list is cleared after it was filled", E.at)
    for n, st in (("Story::restore_state_snapshot", "set|mut"), ("Story::discard_snapshot", "set|mut")):
        E = q.need(n, QU)
        if E:
            f = E.when(r"^(set|mut) Story\.state_snapshot_at_last_new_line( take)?$")
            X(QU, f == 1, f"snapshot:{n}", "the look-ahead copy of the state can stay behind", E.at)

    # globals
    E = q.need("Story::reset_globals", GL)
    if E:
        has = E.lit(r'named_content\["global decl"\]\?$')
        nohas = E.B.NOT(has)
        jump = E.when(r"^call Story::choose_path$", r'"global decl"\), False$')
        q.same(GL, E, jump, has, "run", "the variable declarations are not run exactly when the program has them")
        ok = E.B.OR(E.lit(r"!^Story::choose_path\(.*\)\?$"), E.lit(r"!^Story::continue_internal\(.*\)\?$"))
        c = E.when(r"^call Story::continue_internal$", r'^p1, "?0(\.0)?"?$')
        q.implies(GL, E, E.B.AND(jump, E.B.NOT(c)), "played", "the declarations are not played to the end", r"!^Story::choose_path\(")
        sp = E.when(r"^call StoryState::set_current_pointer$|^set Element\.current_pointer$")
        q.implies(GL, E, E.B.AND(c, E.B.NOT(sp)), "position", "the position is not put back after the declarations", r"!^Story::continue_internal\(")
        for t, v, f in E.sites(r"^call StoryState::set_current_pointer$|^set Element\.current_pointer$"):
            X(GL, "current_pointer" in v or "get_current_pointer" in v, "position-value", f"the position put back is {v[:100]}", E.at)
        d = E.when(r"^call VariablesState::snapshot_default_globals$")
        q.implies(GL, E, E.B.NOT(d), "defaults", "the default values are not recorded", E.B.AND(has, ok))
        X(GL, not E.can_follow(r"^call VariablesState::snapshot_default_globals$", r"^call Story::continue_internal$"), "defaults-order", "the defaults are recorded before the declarations ran", E.at)
    E = q.need("VariablesState::snapshot_default_globals", GL)
    if E:
        vs = E.sites(r"^mut VariablesState\.default_global_variables (insert|extend)$")
        vs2 = E.sites(r"^set VariablesState\.default_global_variables$", r"^p1\.global_variables$")
        X(GL, bool(vs2) or any(f == 1 and re.search(r"^each\(p1\.global_variables\)\.0, each\(p1\.global_variables\)\.1$|^p1\.global_variables$", v) for _, v, f in vs), "all-defaults", f"not every global becomes a default: {[v for _, v, _ in vs]}", E.at)

    # jumps
    E = q.need("Story::reset_callstack", JU)
    if E:
        q.same(JU, E, E.when(r"^call StoryState::force_end$"), E.lit("!" + ASYNC), "reset-callstack", "a call-stack reset does not end the current position")
    E = q.need("StoryState::force_end", JU)
    if E:
        for tre, v, key in ((r"^call CallStack::reset$", r"current_flow\.callstack", "callstack"), (r"^(mut Flow\.current_choices clear|set Flow\.current_choices)$", None, "choices"),
                            (r"^call StoryState::set_current_pointer$", "NULL", "pointer"), (r"^call StoryState::set_previous_pointer$", "NULL", "previous")):
            X(JU, E.when(tre, v) == 1, key, f"ending the position does not always do: {key}", E.at)
    E = q.need("Story::choose_path_string", JU)
    if E:
        r = E.when(r"^call Story::reset_callstack$")
        c = E.when(r"^call Story::choose_path$")
        q.implies(JU, E, r, "asked", "the call stack is reset without being asked", "^p3$")
        q.implies(JU, E, E.B.AND(c, E.lit("^p3$")), "done", "a jump that asked for a call-stack reset does not get one", r)
        X(JU, not E.can_follow(r"^call Story::choose_path$", r"^call Story::reset_callstack$"), "order", "the call stack is reset after the jump", E.at)
    # nothing of variables and counts below the reset of a call stack
    for n in ("StoryState::force_end", "CallStack::reset", "Story::reset_callstack"):
        W = {f[-1] for r, f in A.E.writes().get(contract.keys(A)[n].path, ()) if f} if n in contract.keys(A) else set()
        bad = sorted(x for x in W if re.search(r"variables|visit_counts|turn_indices|current_turn_index|story_seed|previous_random|named_flows", x.split(".")[-1]) and "temporary" not in x)
        X(JU, not bad, f"touches:{n}", f"{n} also changes {bad}")
    C = q.need("StoryState::set_chosen_path", JU)
    if C:
        p = C.when(r"^call StoryState::set_current_pointer$")
        q.occurs(JU, C, p, "moves", "a jump does not move the position")
        q.implies(JU, C, C.B.NOT(p), "moves-always", "a jump to an existing path does not move the position", r"!^Story::pointer_at_path\(")
        q.implies(JU, C, C.when(r"^set StoryState\.current_turn_index$"), "turns", "a jump counts a turn unasked", "^p3$")
    CP = q.need("Story::choose_path", JU)
    if CP:
        q.implies(JU, CP, CP.when("^call StoryState::set_chosen_path$", "True$"), "incrementing", "the turn is counted unasked", "^p3$")
