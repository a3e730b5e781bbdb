"""C04: story faults are errors; nothing reachable from playing panics."""
import re

import psites
from common import Q
from eff import Eff, callers, contracts, cycles, fresh, variants_of, writers
import contract

LOAD = r"json_read|JsonTokenizer|JsonValue|^Number::|from_json|load_json|load_flow"
# recursion over things whose depth is bounded: why
REC = {
    ("json_read::jarray_to_container", "json_read::jarray_to_runtime_obj_list", "json_read::jtoken_to_runtime_object"): "a JSON value (the reader bounds its depth)",
    ("json_write::write_rt_container", "json_write::write_rtobject"): "the content tree",
    ("Container::build_string_of_hierarchy",): "the content tree",
    ("json_read_stream::jarray_to_container", "json_read_stream::jarray_to_runtime_obj_list", "json_read_stream::jtoken_to_runtime_object", "json_read_stream::token_at_depth_to_runtime_object"): "the tokenizer bounds the depth (C15)",
    ("VariablesState::get_variable_with_name", "VariablesState::value_at_variable_pointer"): "pointers always lead to the pointed variable itself",
    ("Story::validate_external_bindings_container",): "the content tree",
    ("Story::next_content",): "each level leaves a call stack element, of which there are at most MAX_DEPTH",
}
INT = {"add_op": "add", "subtract_op": "sub", "multiply_op": "mul", "negate_op": "neg", "divide_op": "div", "mod_op": "rem"}
FAULTS = [r"^NativeFunctionCall::", r"^Value::(cast|is_truthy)$", r"^ValueType::(coerce_|get::)",
          r"^Story::(pop_choice_string_and_tags|process_choice|next_sequence_shuffle_index|pointer_at_path|continue_internal|call_external_function|validate_external_bindings|is_truthy|step|next_content|add_error|error|reset_state|reset_globals)$",
          r"^StoryState::(pop_evaluation_stack_multiple|pop_evaluation_stack|turns_since_for_container|visit_count_at_path_string|check_arguments|pass_arguments_to_evaluation_stack|force_end|add_error|pop_callstack)$",
          r"^VariableReference::get_container_for_count$", r"^CallStack::(pop|pop_thread|set_temporary_variable|check_depth)$",
          r"^InkList::from_single_origin$", r"^VariablesState::(set|assign)$"]


def check(ctx):
    q = Q(ctx)
    A = fresh(ctx.world.A["bladeink"])
    ks = contract.keys(A)
    P, T, W, N, D, R, F = "no-panic", "stacks", "wrap", "operators", "depth", "recursion", "faults"
    ctx.rule(P, "every construct that can panic (unwrap, index, division, overflow, slicing, cast, capacity) in a function reachable while playing is discharged by its own guards or is a reviewed one under no weaker guards")
    ctx.rule(T, "a call stack always has a thread and a thread an element: only reviewed functions change them, and none can leave them empty")
    ctx.rule(W, "Int arithmetic of the operators wraps, in every build; division and modulo by zero are Err")
    ctx.rule(N, "an operator runs only on as many operands as its arity, a void or missing operand is Err, and each operator answers for every pair of types")
    ctx.rule(D, "what a story pushes on the call stack or starts as a thread is bounded by an Err")
    ctx.rule(R, "every recursive group of functions is bounded by the depth of something finite")
    ctx.rule(F, "the returned Err values and recorded errors of the fault-handling functions occur under the reviewed conditions")
    psites.check(ctx, P, "bladeink", [k for k, b in ks.items() if A.I.is_known(b) and not re.search(LOAD, k)], 330)

    # stacks
    q.subset(T, writers(A, r"^(mut|set) CallStack\.threads"), {"CallStack::load_json", "CallStack::pop_thread", "CallStack::push_thread", "CallStack::reset", "CallStack::set_current_thread", "CallStack::new"}, "threads", "the threads of a call stack are changed by")
    q.subset(T, writers(A, r"^(mut|set) Thread\.callstack"), {"CallStack::pop", "CallStack::push", "CallStack::reset", "Thread::from_json", "CallStack::new"}, "elements", "the elements of a thread are changed by")
    q.subset(T, callers(A, "CallStack::get_callstack_mut"), {"CallStack::get_elements_mut", "CallStack::pop", "CallStack::push", "CallStack::set_temporary_variable"}, "callstack_mut", "the elements are handed out for change to")
    q.subset(T, callers(A, "CallStack::get_current_thread_mut"), {"CallStack::get_callstack_mut", "StoryState::get_previous_pointer", "StoryState::set_previous_pointer"}, "thread_mut", "the thread is handed out for change to")
    q.subset(T, callers(A, "CallStack::get_elements_mut"), {"StoryState::push_to_output_stream_individual"}, "elements_mut", "the elements are handed out for change to")
    for fn, tgt, lit in (("CallStack::pop", r"^mut Thread\.callstack (pop|remove|truncate|clear|drain)", r"^1 < Vec::len\(.*callstack\)$"), ("CallStack::pop_thread", r"^mut CallStack\.threads (pop|remove|truncate|clear|drain)", r"^1 < Vec::len\(p1\.threads\)$")):
        E = q.need(fn, T)
        if E:
            f = E.when(tgt)
            q.occurs(T, E, f, f"{fn}:pops", "nothing is removed")
            q.implies(T, E, f, f"{fn}:last", "the last one can be removed", lit)
            q.never(T, E, E.B.AND(E.when(tgt), E.when("^return$", "^Err")), f"{fn}:silent", "an Err after the removal")
    for fn in ("CallStack::reset", "CallStack::set_current_thread"):
        E = q.need(fn, T)
        if E:
            cl = E.when(r"^mut CallStack\.threads (clear|drain|truncate|pop)")
            pu = E.when(r"^mut CallStack\.threads (push|insert|append|extend)|^set CallStack\.threads")
            q.never(T, E, E.B.AND(cl, E.B.NOT(pu)), f"{fn}:refilled", "the threads can stay cleared")
            if E.can_follow(r"^mut CallStack\.threads push", r"^mut CallStack\.threads (clear|pop)"):
                ctx.fail(T, f"{fn}:order", "the threads are cleared after the push", E.at)
            if fn.endswith("reset"):
                el = E.when(r"^mut Thread\.callstack push|^set Thread\.callstack") if not any("callstack:vec!" in v or "callstack:[" in v for _, v, _ in E.sites("threads push")) else 1
                q.never(T, E, E.B.AND(pu, E.B.NOT(el)), f"{fn}:element", "the new thread can have no element")
    for fn in ("CallStack::load_json", "Thread::from_json"):
        E = q.need(fn, T)
        if E:
            r = E.when("^set CallStack.threads$") if "CallStack" in fn else E.when("^return$", r"^Thread\{|^Ok")
            q.occurs(T, E, r, f"{fn}:loads", "nothing is loaded")
            q.implies(T, E, r, f"{fn}:empty", "an empty list is accepted", r"!^empty\(")

    # wrapping
    for op, w in INT.items():
        E = q.need(f"NativeFunctionCall::{op}", W)
        if not E:
            continue
        sites = [(v, f) for t, v, f in E.sites("^return$") if "Err(" not in v and "@Int" in v]
        ctx.expect(W, sites and all(re.match(rf"^(i32::)?wrapping_{w}\(", v) for v, f in sites), f"{op}:wraps", f"Int results of {op}: {[v[:70] for v, f in sites]}", E.at)
        if w in ("div", "rem"):
            for v, f in sites:
                q.implies(W, E, f, f"{op}:zero", f"{op} by zero is attempted", r"!^p2\[1\]\.value@Int\.0 == 0$")
            zero = E.B.AND(E.lit(r"^p2\[1\]\.value@Int\.0 == 0$"), E.lit(r"^p2\[0\]\.value is Int$"))
            q.occurs(W, E, E.B.AND(zero, E.when("^return$", r"^Err")), f"{op}:err", "zero is not an Err")
            q.never(W, E, E.B.AND(zero, E.when("^return$", r"^(?!Err)")), f"{op}:zero-value", "a value for a zero divisor")

    # operators
    E = q.need("NativeFunctionCall::call", N)
    if E:
        run = E.when(r"^call NativeFunctionCall::(call_type|call_binary_list_operation)$")
        q.implies(N, E, run, "arity", "an operator runs on the wrong number of operands", r"^NativeFunctionCall::get_number_of_parameters\(p1\) == (Vec|\[T\])::len\(p2\)$")
    for fn in ("call_type", "get_number_of_parameters"):
        E = q.need(f"NativeFunctionCall::{fn}", N)
        if E:
            ops = set(variants_of(A, "Op"))
            rt = E.when("^return$") if fn == "get_number_of_parameters" else E.when("^return$|^call NativeFunctionCall::")
            for o in sorted(ops):
                q.occurs(N, E, E.B.AND(rt, E.lit(rf"^p1\.op is {o}$")), f"{fn}:{o}", f"{fn} does not answer for {o}")
    E = q.need("NativeFunctionCall::get_number_of_parameters", N)
    if E:
        un = {"Negate", "Not", "Floor", "Ceiling", "Int", "Float", "ListMin", "ListMax", "All", "Count", "ValueOfList", "Invert"}
        for o in variants_of(A, "Op"):
            f = E.B.AND(E.lit(rf"^p1\.op is {o}$"), E.when("^return$", "^2$" if o in un else "^1$"))
            q.never(N, E, f, f"arity:{o}", f"arity of {o} is not {1 if o in un else 2}")

    # depth
    host = {"StoryState::start_function_evaluation_from_game"}
    for fn, pat in (("CallStack::push", r"^call CallStack::push$"), ("CallStack::push_thread", r"^call CallStack::push_thread$")):
        cs = [c for c in callers(A, fn) if c not in host]
        ctx.expect(D, cs, f"{fn}:used", f"{fn} is not called")
        for c in cs:
            E = q.need(c, D)
            if E:
                f = E.when(pat)
                q.occurs(D, E, f, f"{c}:{fn}", "no push found")
                for what, lit in (("threads", r"^\d{2,}′? < Vec::len\(.*threads\)$"), ("elements", r"^\d{2,}′? < Vec::len\(.*\.callstack\)$")):
                    at = E.atoms(lit)
                    ctx.expect(D, at, f"{c}:{fn}:{what}:bound", f"no bound on the {what} before {fn}", E.at)
                    if at:
                        ctx.expect(D, all(int(re.match(r"\d+", a)[0]) <= 20000 for a in at), f"{c}:{fn}:{what}:size", f"the bound on the {what} is {at}", E.at)
                        q.never(D, E, E.B.AND(f, E.lit(lit)), f"{c}:{fn}:{what}", f"{fn} past the bound on the {what}")

    # recursion
    from names import short
    for comp in cycles(A):
        nm = tuple(sorted({short(p) for p in comp}))
        hit = [k for k in REC if set(nm) & set(k)]
        extra = [x for x in nm if not any(x in k for k in hit) and A.I.is_known(A.crate.bodies[[p for p in comp if short(p) == x][0]])]
        ctx.expect(R, hit and not extra, f"cycle:{'+'.join(nm)}", f"unreviewed recursion through {', '.join(nm)}")
    ctx.count("recursive groups", len(cycles(A)), 4, R)

    contracts(ctx, F, "bladeink", FAULTS, 70, text=ctx.rules[F]["text"], only=r"return|add_error|StoryState\.current_errors")
