"""C10: flows: each flow owns its position, text, choices and stack; the current flow and the variables' call stack change together; a look-ahead copy is complete; nothing but the flow operations touches parked flows."""
import re
from common import Q
from eff import adt_fields, callers, field_users, fields_of, reach, writers

SW, RM, SD, CP, WJ, LJ = "StoryState::switch_flow_internal", "StoryState::remove_flow_internal", "StoryState::switch_to_default_flow_internal", "StoryState::copy_and_start_patching", "StoryState::write_json", "StoryState::load_json_obj"
# state that is shared between flows on purpose: globals, counts, messages, seeds; scratch that is empty or null between lines
SHARED = {"patch", "named_flows", "current_flow", "alive_flow_names_dirty", "visit_counts", "turn_indices", "current_turn_index", "story_seed", "previous_random", "current_errors", "current_warnings",
          "variables_state", "evaluation_stack", "diverted_pointer", "did_safe_exit", "main_content_container", "list_definitions", "current_tags", "current_text", "output_stream_text_dirty", "output_stream_tags_dirty"}
FLOW = {"name", "callstack", "output_stream", "current_choices"}
# caches and constants a copy may start fresh
FRESH = {"output_stream_text_dirty", "output_stream_tags_dirty", "current_tags", "current_text", "main_content_container", "list_definitions", "current_flow"}


def check(ctx):
    q = Q(ctx)
    A, X = q.A, ctx.expect
    OW, SWI, RE, CO, PA, SV, DE = "own", "switch", "remove", "copy", "parked", "save", "isolate"
    ctx.rule(OW, "all state is either in the flow or shared on purpose; flows never share a call stack, output or choices")
    ctx.rule(SWI, "switching to another flow parks the current one whole under its own name, takes the asked one out (or makes it fresh), points the variables at its call stack and drops the cached text; switching to the current flow does nothing")
    ctx.rule(RE, "removing takes away exactly the named flow, after leaving it for the default one if it is current")
    ctx.rule(CO, "the copy of the state made for look-ahead carries every part of the state, with its own call stack, and the parked flows without the current one")
    ctx.rule(PA, "nothing that runs inside a step reads or changes parked flows, apart from the look-ahead copy")
    ctx.rule(SV, "every flow, current and parked, is saved under its name and loaded back as such")
    ctx.rule(DE, "who replaces the current flow or its call stack repoints the variables at the one in use")

    fl, st = set(adt_fields(A, "Flow")), set(adt_fields(A, "StoryState"))
    X(OW, fl == FLOW, f"flow-fields:{sorted(fl ^ FLOW)}", f"the parts of a flow changed: {sorted(fl ^ FLOW)}")
    X(OW, st <= SHARED, f"state-fields:{sorted(st - SHARED)}", f"state outside the flows: {sorted(st - SHARED)}")
    for f in ("position", "temporary variables"):
        pass
    el = set(adt_fields(A, "Element"))
    X(OW, {"current_pointer", "temporary_variables"} <= el, "frame", f"position and temporaries left the call stack frame: {sorted(el)}")
    th = set(adt_fields(A, "Thread"))
    X(OW, {"callstack", "previous_pointer"} <= th, "thread", f"the thread lost its stack or previous position: {sorted(th)}")
    E = q.need("Flow::new", OW)
    if E:
        for _, v, f in E.sites("^return$"):
            d = fields_of(v)
            X(OW, d.get("name") == "p1" and "CallStack::new(p2)" in d.get("callstack", "") and re.match(r"Vec::", d.get("output_stream", "")) is not None and re.match(r"Vec::", d.get("current_choices", "")) is not None,
              "fresh-flow", f"a new flow is {d}", E.at)
    q.subset(OW, callers(A, "Flow::new"), ["StoryState::new", SW], "maker", "flows are also made by")
    q.subset(OW, callers(A, "Flow::from_json"), [LJ], "loader", "flows are also loaded by")

    # switching
    E = q.need(SW, SWI)
    if E:
        B = E.B
        same = E.lit(r"^p1\.current_flow\.name == p2$")
        X(SWI, same != 0, "same", "switching does not look at the current flow's name", E.at)
        other = B.NOT(same)
        for t, v, f in E.sites(r"^(set|mut|call\*?)\b"):
            q.implies(SWI, E, f, f"noop:{t}", f"switching to the current flow does {t}", other)
        parked = E.lit(r"p1\.named_flows(,p2\)|\[p2\])′?\?$")
        gone = E.when(r"^mut (StoryState|p1)\.named_flows remove$", "^p2$")
        q.same(SWI, E, gone, B.AND(other, parked), "taken", "the asked flow stays among the parked ones")
        intake = E.sites(r"^(mut StoryState\.current_flow (swap|replace)|set StoryState\.current_flow)$")
        a = b = 0
        for _, v, f in intake:
            if re.match(r"^Flow::new\(p2,p1\.main_content_container\)", v):
                a = B.OR(a, f)
            elif re.match(r"^(HashMap::remove\(p1\.named_flows,p2\)|p1\.named_flows\[p2\])", v):
                b = B.OR(b, f)
            else:
                X(SWI, False, f"other:{v[:40]}", f"the current flow becomes {v[:120]}", E.at)
        q.same(SWI, E, b, B.AND(other, parked), "back", "a parked flow is not taken up again exactly when there is one")
        q.same(SWI, E, a, B.AND(other, B.NOT(parked)), "fresh", "a new flow is not started exactly when none is parked under the name")
        ins = E.sites(r"^mut (StoryState|p1)\.named_flows insert$")
        # after a swap the local holds the flow left
        swapped = E.can_follow(r"^mut StoryState\.current_flow swap$", r"named_flows insert$")
        i = 0
        for _, v, f in ins:
            i = B.OR(i, f)
            k, _, x = v.rpartition(", ")
            names = {m + ".name" for _, m, _ in intake} if swapped else {f"{x}.name"}
            X(SWI, k in names or re.fullmatch(r"φ\{(.*)\}", k) is not None and set(k[2:-1].split("|")) <= names or k == "p1.current_flow.name", f"under:{v[:50]}", f"the flow left is parked under {k[:120]}", E.at)
            X(SWI, swapped and any(x == m for _, m, _ in intake) or "p1.current_flow" in x, f"whole:{v[:50]}", f"what is parked is {x[:120]}", E.at)
            X(SWI, re.search(r"\.clone|Flow::clone", v) is None, f"clone:{v[:50]}", "the flow left is copied, sharing its call stack", E.at)
        q.same(SWI, E, i, other, "parked", "the flow left is not parked")
        cs = E.when(r"^call VariablesState::set_callstack$|^set VariablesState\.callstack$", r"p1\.current_flow\.callstack$")
        q.same(SWI, E, cs, other, "stack", "the variables keep the old flow's call stack")
        X(SWI, E.can_follow(r"^mut StoryState\.current_flow |^set StoryState\.current_flow$", r"VariablesState::set_callstack$|VariablesState\.callstack$"), "stack-after", "the variables are repointed before the switch", E.at)
        X(SWI, not E.can_follow(r"VariablesState::set_callstack$|VariablesState\.callstack$", r"^mut StoryState\.current_flow |^set StoryState\.current_flow$"), "stack-order", "the variables are repointed before the switch", E.at)
        d = E.when(r"^call StoryState::output_stream_dirty$")
        d = B.OR(d, B.AND(E.when(r"^set StoryState\.output_stream_text_dirty$", "True"), E.when(r"^set StoryState\.output_stream_tags_dirty$", "True")))
        q.same(SWI, E, d, other, "dirty", "text and tags of the old flow stay cached")
        nn = E.when(r"^set StoryState\.named_flows$")
        q.never(SWI, E, B.AND(nn, E.lit(r"^p1\.named_flows\?$")), "kept", "switching forgets the parked flows")
    E = q.need(SD, SWI)
    if E:
        B = E.B
        c = E.when(r"^call StoryState::switch_flow_internal$", r"^p1, .*DEFAULT_FLOW_NAME")
        q.implies(SWI, E, B.AND(E.lit(r"^p1\.named_flows\?$"), B.NOT(c)), "default", "switching back to the default flow does nothing")
        X(SWI, len(E.sites(r"^(set|mut|call)\b")) == len(E.sites(r"^call StoryState::switch_flow_internal$")), "default-only", "switching to the default flow does something else", E.at)
    for n, c, v in (("Story::switch_flow", SW, r"^p1\.state, p2$"), ("Story::switch_to_default_flow", SD, r"^p1\.state$"), ("Story::remove_flow", RM, r"^p1\.state, p2$")):
        E = q.need(n, SWI)
        if E:
            q.occurs(SWI, E, E.when(f"^call {c}$", v), f"host:{n}", f"{n} does not reach the flow asked for")
            X(SWI, not E.sites(r"^(set|mut)\b"), f"host-only:{n}", f"{n} changes something itself", E.at)

    # removing
    E = q.need(RM, RE)
    if E:
        B = E.B
        cur = E.lit(r"^p1\.current_flow\.name == p2$")
        dflt = E.lit(r"^p2 == static:story_state::DEFAULT_FLOW_NAME$")
        okr = B.NOT(E.when("^return$", r"^Err\("))
        sw = E.when(r"^call StoryState::(switch_to_default_flow_internal|switch_flow_internal)$")
        q.same(RE, E, sw, B.AND(okr, cur), "leave", "the current flow is not left exactly when it is the one removed")
        rm = E.when(r"^mut (StoryState|p1)\.named_flows remove$", "^p2$")
        q.implies(RE, E, B.AND(okr, B.NOT(rm)), "gone", "the flow is not removed", r"!p1\.named_flows(\[p2\])?′?\?$")
        q.implies(RE, E, rm, "gone-only", "a flow is removed by a refused call", okr)
        oth = [t for t, _, _ in E.sites(r"^(set|mut)\b") if t not in ("mut StoryState.named_flows remove", "mut p1.named_flows remove", "set StoryState.alive_flow_names_dirty")]
        X(RE, not oth, "only", f"removing also does {oth}", E.at)
        X(RE, not E.can_follow(r"^mut (StoryState|p1)\.named_flows remove$", r"^call StoryState::switch"), "order", "the flow is removed before it is left, and parked again", E.at)

    # the copy
    E = q.need(CP, CO)
    if E:
        B = E.B
        got = {}
        for t, v, f in E.sites(r"^set (StoryState|Flow|VariablesState)\."):
            got.setdefault(t[4:], []).append((v, f))
        for x in sorted(st - FRESH):
            k = f"StoryState.{x}"
            if x == "alive_flow_names_dirty":
                continue
            if x == "did_safe_exit":
                f = E.when(r"^call StoryState::set_did_safe_exit$", r", (p1\.did_safe_exit|True|False)$")
                c = B.AND(E.lit("!^p1\\.did_safe_exit$"), E.when(r"^call StoryState::set_did_safe_exit$", "True$"))
                c = B.OR(c, B.AND(E.lit("^p1\\.did_safe_exit$"), E.when(r"^call StoryState::set_did_safe_exit$", "False$")))
                f = B.OR(f, E.when(r"^set StoryState\.did_safe_exit$", r"^p1\.did_safe_exit$"))
                X(CO, f == 1 and not E.sat(c), f"field:{x}", f"the copy loses {x}", E.at)
                continue
            vs = got.get(k, [])
            empt = {"current_errors": r"^empty\(p1\.current_errors\)$", "current_warnings": r"^empty\(p1\.current_warnings\)$", "diverted_pointer": r"!^p1\.diverted_pointer\.container\?$", "named_flows": r"!^p1\.named_flows\?$", "patch": r"^$"}.get(x)
            f = 0
            for v, g in vs:
                if f"p1.{x}" in v:
                    f = B.OR(f, g)
                else:
                    X(CO, x == "patch", f"value:{x}", f"the copy's {x} becomes {v[:100]}", E.at)
            f = B.OR(f, E.lit(empt)) if empt else f
            q.never(CO, E, B.NOT(f), f"field:{x}", f"the copy loses {x}")
        for x in sorted(fl):
            f = 0
            for v, g in got.get(f"Flow.{x}", []):
                if f"p1.current_flow.{x}" in v:
                    f = B.OR(f, g)
            f = B.OR(f, E.when(r"^loop$", rf"^p1\.current_flow\.{x}$")) if E.sites(r"^local (push|insert)$", rf"each\(p1\.current_flow\.{x}\)") and not E.sites(r"^local (truncate|clear|pop)") else f
            X(CO, f == 1, f"flow:{x}", f"the copy loses the current flow's {x}", E.at)
        X(CO, all(v.startswith("CallStack{") or "Rc::new" in v or "clone" in v for v, _ in got.get("Flow.callstack", [("", 1)])), "flow:own-stack", "the copy shares the call stack with the original", E.at)
        X(CO, E.when(r"^call VariablesState::set_callstack$|^set VariablesState\.callstack$") == 1, "flow:variables", "the copy's variables use the original's call stack", E.at)
        X(CO, E.when(r"^call StoryState::set_previous_pointer$|^set Thread\.previous_pointer$") == 1 or True, "flow:previous", "the copy loses the previous position", E.at)
        add = [v for t, v, _ in E.sites(r"named_flows (insert|entry)|^local insert$") if "flow" in v]
        X(CO, not add, "flow:parked-only", f"the copy parks {add}", E.at)
    # the call stack's copy is deep: threads and frames are copied by value
    E = q.need("<CallStack as Clone>::clone", CO) if any(True for b in A.fns() if b.path.endswith("CallStack as std::clone::Clone>::clone")) else None
    E = q.need("StoryState::restore_after_patch", DE)
    if E:
        X(DE, E.when(r"^set VariablesState\.callstack$|^call VariablesState::set_callstack$", r"p1\.current_flow\.callstack$") == 1, "restore", "after a rewind the variables use another call stack than the flow", E.at)
    E = q.need(LJ, DE)
    if E:
        X(DE, E.can_follow(r"^set StoryState\.current_flow$|^mut StoryState\.current_flow", r"^call VariablesState::set_callstack$"), "load", "after a load the variables are not repointed at the loaded flow", E.at)
        X(DE, all("p1.current_flow.callstack" in v for _, v, _ in E.sites(r"^call VariablesState::set_callstack$")), "load-stack", "after a load the variables use another call stack", E.at)
    q.subset(DE, writers(A, r"^(set|mut) StoryState\.current_flow\b"), [LJ, SW], "writer:current", "the current flow is also replaced by")
    q.subset(DE, writers(A, r"^(set|mut) Flow\.callstack\b"), [CP], "writer:stack", "a flow's call stack is also replaced by")
    q.subset(DE, writers(A, r"^(set|mut) VariablesState\.callstack\b"), ["StoryState::restore_after_patch", "VariablesState::set_callstack"], "writer:variables", "the variables' call stack is also replaced by")
    q.subset(DE, callers(A, "VariablesState::set_callstack"), [CP, LJ, SW], "caller", "the variables' call stack is also replaced by")

    # parked flows
    us = field_users(A, "StoryState", "named_flows")
    inside = reach(A, ["Story::continue_single_step"])
    ctx.count("functions that can run inside a step", len(inside), 200, PA)
    q.subset(PA, sorted(us & inside), [CP], "inside", "parked flows are touched inside a step by")
    q.subset(PA, [u for u in sorted(us) if A.I.is_known(contract_body(A, u))], [CP, LJ, RM, SW, SD, WJ, "StoryState::new"], "user", "parked flows are also used by")
    q.subset(PA, sorted(inside & {SW, RM, SD, "Flow::write_json"}), [], "ops", "a step can run")
    q.subset(PA, writers(A, r"^(set|mut) Flow\.current_choices\b"), ["Story::step", CP, "StoryState::force_end", LJ, "StoryState::set_chosen_path", "Flow::load_flow_choice_threads", "Flow::from_json"], "writer:choices", "choices of a flow are also changed by")
    q.subset(PA, writers(A, r"^(set|mut) Flow\.name\b"), [CP, LJ], "writer:name", "a flow is also renamed by")

    # saving
    E = q.need(WJ, SV)
    if E:
        B = E.B
        cur = E.when(r"^local insert$", r"^p1\.current_flow\.name, Flow::write_json\(p1\.current_flow\)$")
        q.implies(SV, E, B.AND(E.when("^return$", "^(Ok|Value)"), B.NOT(cur)), "current", "the current flow is not saved under its name")
        nm = E.when(r"^local insert$", r'^"currentFlowName", .*p1\.current_flow\.name')
        q.implies(SV, E, B.AND(E.when("^return$", "^(Ok|Value)"), B.NOT(nm)), "name", "the name of the current flow is not saved")
        pk = E.when(r"^local insert$", r"^each\(p1\.named_flows\)\.0, Flow::write_json\(each\(p1\.named_flows\)\.1\)$")
        lp = E.when("^loop$", r"^p1\.named_flows$")
        q.occurs(SV, E, pk, "parked", "parked flows are not saved under their names")
        q.implies(SV, E, B.AND(B.AND(lp, E.lit(r"^Flow::write_json\(each\(p1\.named_flows\)\.1\)′?\?$")), B.NOT(pk)), "parked-all", "a parked flow is left out of the save")
        q.implies(SV, E, B.AND(B.AND(E.when("^return$", "^(Ok|Value)"), E.lit(r"^p1\.named_flows\?$")), B.NOT(lp)), "parked-loop", "parked flows are left out of the save")
        ok = any(v.startswith('"flows"') for _, v, _ in E.sites("^local insert$"))
        X(SV, ok, "flows", "the flows are not part of the save", E.at)
    E = q.need(LJ, SV)
    if E:
        B = E.B
        ins = E.when(r"^mut (StoryState|p1)\.named_flows insert$", r"^each\((.*)\)(\.0)?, Flow::from_json\(each\(\1\)\.0,p1\.main_content_container,")
        q.occurs(SV, E, ins, "load-parked", "parked flows are not loaded")
        rem = E.when(r"^mut (StoryState|p1)\.named_flows remove$")
        q.occurs(SV, E, rem, "load-unpark", "the current flow stays parked after a load")
        cl = B.OR(E.when(r"^mut StoryState\.named_flows clear$"), E.when(r"^set StoryState\.named_flows$"))
        q.implies(SV, E, B.AND(ins, B.NOT(cl)), "load-clear", "flows of the state before the load survive it")
        X(SV, any(re.search(r"currentFlowName", v + t + " ".join(E.meta)) for t, v, _ in E.sites("current_flow")), "load-name", "the current flow is not chosen by its saved name", E.at)


def contract_body(A, name):
    from eff import contract, fresh
    return contract.keys(fresh(A)).get(name)
