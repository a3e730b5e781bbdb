"""C01: the interpreter does what the language says.  Every command, choice point, divert, visit and line end has the
effects the Ink language gives it, under exactly the conditions it gives; what the compiler makes of each construct is compared with what was reviewed."""
import re

import contract
import tokens
from common import Q
from eff import variants_of

CUR = r"\[T\]::last\(\[T\]::last\(p1\.state\.current_flow\.callstack\.threads\)\.callstack\)"
POP = r"StoryState::pop_evaluation_stack\(p1\.state\)"
ANY = None
# what is done, when -> (event, value, the commands that do it)
DOES = [
    ("takes a value off the stack", r"^call StoryState::pop_evaluation_stack$", ANY, "EvalOutput PopEvaluatedValue PopTunnel TurnsSince ReadCount Random SeedRandom ListFromInt ListRange ListRandom"),
    ("shows a value", r"^call StoryState::push_to_output_stream$", rf"^p1\.state, {POP}$", "EvalOutput"),
    ("shows itself", r"^call StoryState::push_to_output_stream$", r"^p1\.state, p2$", "BeginString BeginTag EndTag"),
    ("keeps the tags of a string", r"^call StoryState::push_to_output_stream$", r"^p1\.state, VecDeque::pop", "EndString"),
    ("starts an expression", r"^call StoryState::set_in_expression_evaluation$", r"True$", "EvalStart EndString"),
    ("ends an expression", r"^call StoryState::set_in_expression_evaluation$", r"False$", "EvalEnd BeginString"),
    ("repeats the value on top", r"^call StoryState::push_evaluation_stack$", r"\[T\]::last\(p1\.state\.evaluation_stack\)$", "Duplicate"),
    ("gives the turns so far", r"^call StoryState::push_evaluation_stack$", r"\(1 Add p1\.state\.current_turn_index\)$|\(p1\.state\.current_turn_index Add 1\)$", "Turns"),
    ("gives the choices so far", r"^call StoryState::push_evaluation_stack$", r"Vec::len\(p1\.state\.current_flow\.current_choices\)$", "ChoiceCount"),
    ("gives the turns since", r"^call StoryState::turns_since_for_container$", ANY, "TurnsSince"),
    ("gives never", r"^call StoryState::push_evaluation_stack$", r"^p1\.state, -1$", "TurnsSince"),
    ("gives the visits of a target", r"^call StoryState::visit_count_for_container$", r"content_at_path", "ReadCount"),
    ("gives the visits of this place", r"^call StoryState::visit_count_for_container$", rf"^p1\.state, {CUR}\.current_pointer\.container$", "VisitIndex"),
    ("gives the visits of this place from 0 up", r"^call StoryState::push_evaluation_stack$", rf"\(StoryState::visit_count_for_container\(p1\.state,{CUR}\.current_pointer\.container\) Sub 1\)$", "VisitIndex"),
    ("gives the next of a shuffle", r"^call Story::next_sequence_shuffle_index$", ANY, "SequenceShuffleIndex"),
    ("sets the seed", r"^set StoryState\.story_seed$", ANY, "SeedRandom"),
    ("starts the random numbers again", r"^set StoryState\.previous_random$", r"^0$", "SeedRandom"),
    ("steps the random numbers", r"^set StoryState\.previous_random$", r"^i32::wrapping_add", "Random"),
    ("keeps the random number of a list", r"^set StoryState\.previous_random$", r"^RngExt", "ListRandom"),
    ("gives nothing", r"^call StoryState::push_evaluation_stack$", r"^p1\.state, Void", "SeedRandom"),
    ("takes a part of a list", r"^call InkList::list_with_sub_range$", ANY, "ListRange"),
    ("returns", r"^call StoryState::pop_callstack$", ANY, "PopFunction PopTunnel"),
    ("ends a host evaluation", r"^call StoryState::try_exit_function_evaluation_from_game$", ANY, "PopFunction PopTunnel"),
    ("returns elsewhere", r"^call StoryState::set_diverted_pointer$", rf"{POP}", "PopTunnel"),
    ("ends the thread", r"^call CallStack::pop_thread$", ANY, "Done"),
    ("ends safely", r"^call StoryState::set_did_safe_exit$", r"True$", "Done"),
    ("stops", r"^call StoryState::set_current_pointer$", r"NULL", "Done"),
    ("ends the story", r"^call StoryState::force_end$", ANY, "End"),
]
KINDS = ["Divert", "ControlCommand", "VariableAssignment", "VariableReference", "NativeFunctionCall"]


def commands(q):
    X = q.ctx.expect
    E = q.need("Story::perform_logic_and_flow_control", "commands")
    if not E:
        return
    allv = variants_of(q.A, "CommandType") or []
    q.ctx.count("commands of the format", len(allv), 26, "commands")
    C = {}
    for v in allv:
        C[v] = E.lit(rf"^dc<ControlCommand>\(p2\)\.command_type is {v}$")
    dc = {k: E.lit(rf"^dc<{k}>\(p2\)\?$") for k in KINDS}
    for k in KINDS:
        X("commands", dc[k] != 0, f"kind:{k}", f"nothing is done for a {k}", E.at)
    seen = [v for v in C if C[v]]
    X("commands", len(seen) >= len(allv) - 1, "all", f"commands that are not told apart: {sorted(set(allv) - set(seen))}", E.at)
    cc = dc["ControlCommand"]
    for k in KINDS:
        if k != "ControlCommand":
            cc = E.B.AND(cc, E.B.NOT(dc[k]))  # a command is nothing else
    tunnel = E.lit(r"^φ\{PushPopType::Function.* is Tunnel$")
    n = 0
    for what, tre, vre, who in DOES:
        f = E.B.AND(E.when(tre, vre), cc)
        who = who.split()
        q.occurs("commands", E, f, f"{what}:some", f"no command {what}")
        g = 0
        for c in who:
            g = E.B.OR(g, C.get(c, 0))
            if c == "PopTunnel":
                g = E.B.OR(g, tunnel)
            n += 1
            if C.get(c):
                q.occurs("commands", E, E.B.AND(f, C[c]), f"{what}:{c}", f"{c} never {what}")
        q.implies("commands", E, f, f"{what}:only", f"a command other than {' and '.join(who)} {what}", g)
        # a divert, an assignment … is no command
    q.ctx.count("command effects", n, 38, "commands")
    # always, whatever the story is like
    for c, tre, vre, but in (("Turns", r"push_evaluation_stack$", r"current_turn_index", None), ("ChoiceCount", r"push_evaluation_stack$", r"current_choices", None), ("End", r"force_end$", ANY, None),
                             ("BeginTag", r"push_to_output_stream$", r", p2$", None), ("BeginString", r"push_to_output_stream$", r", p2$", None), ("SequenceShuffleIndex", r"next_sequence_shuffle_index$", ANY, None),
                             ("PopEvaluatedValue", r"pop_evaluation_stack$", ANY, None), ("EndString", r"set_in_expression_evaluation$", r"True$", None)):
        one = E.B.AND(cc, C.get(c, 0))
        for v in seen:
            if v != c:
                one = E.B.AND(one, E.B.NOT(C[v]))
        for k in KINDS:
            if k != "ControlCommand":
                one = E.B.AND(one, E.B.NOT(dc[k]))
        some = E.lit(r"^p2\?$")
        if some:
            one = E.B.AND(one, some)
        q.never("commands", E, E.B.AND(one, E.B.NOT(E.when("^call .*" + tre, vre))), f"always:{c}", f"{c} does not always do what it is there for")
    # expression mode
    mode = E.lit(rf"^{CUR}\.in_expression_evaluation$")
    sets = {b: E.when(r"^call StoryState::set_in_expression_evaluation$", rf"{b}$") for b in ("True", "False")}
    q.never("commands", E, E.B.AND(E.B.AND(sets["True"], C.get("EvalStart", 0)), mode), "ev:twice", "an expression starts inside an expression")
    q.never("commands", E, E.B.AND(sets["False"], E.B.NOT(mode)), "ev:end", "an expression ends that was not begun")
    for c, b, m in (("EvalStart", "True", E.B.NOT(mode)), ("EvalEnd", "False", mode), ("BeginString", "False", mode)):
        one = E.B.AND(E.B.AND(cc, C.get(c, 0)), m)
        for v in seen:
            if v != c:
                one = E.B.AND(one, E.B.NOT(C[v]))
        if E.lit(r"^p2\?$"):
            one = E.B.AND(one, E.lit(r"^p2\?$"))
        one = E.B.AND(one, E.B.NOT(dc["Divert"]))
        q.never("commands", E, E.B.AND(one, E.B.NOT(sets[b])), f"mode:{c}", f"{c} does not switch the mode")
    # threads and ends
    many = E.lit(r"^1 < Vec::len\(p1\.state\.current_flow\.callstack\.threads\)$")
    game = E.lit(rf"^{CUR}\.push_pop_type is FunctionEvaluationFromGame$")
    can = E.B.AND(many, E.B.NOT(game))
    f = E.when(r"^call CallStack::pop_thread$")
    q.implies("commands", E, f, "done:thread", "Done ends a thread when there is only one, or inside a host evaluation", can)
    q.never("commands", E, E.B.AND(E.when(r"^call StoryState::set_did_safe_exit$"), can), "done:safe", "Done ends the turn while a thread is left")
    # returns
    top = E.lit(rf"^1 < Vec::len\({CUR.replace('callstack' + chr(92) + ')', '')}")
    f = E.when(r"^call StoryState::pop_callstack$")
    fit = E.lit(rf"^{CUR}\.push_pop_type == φ\{{PushPopType::Function|^{CUR}\.push_pop_type is (Function|Tunnel)$|^φ\{{PushPopType::Function.* == {CUR}\.push_pop_type")
    q.implies("commands", E, f, "return:kind", "a return leaves a frame of the other kind", fit)
    q.never("commands", E, E.B.AND(f, E.lit(r"^StoryState::try_exit_function_evaluation_from_game\(p1\.state\)$")), "return:game", "a return that ended a host evaluation pops a frame as well")


def objects(q):
    E = q.need("Story::perform_logic_and_flow_control", "objects")
    if not E:
        return
    B = E.B
    dc = {k: E.lit(rf"^dc<{k}>\(p2\)\?$") for k in KINDS}
    div = dc["Divert"]
    D = lambda n: E.lit(rf"^dc<Divert>\(p2\)\.{n}$")
    truthy = E.lit(rf"^Story::is_truthy\(p1,{POP}\)′?$")
    go = B.AND(B.OR(E.when(r"^call StoryState::set_diverted_pointer$"), B.OR(E.when(r"^call Story::call_external_function$"), E.when(r"^call CallStack::push$"))), div)
    q.implies("objects", E, B.AND(go, D("is_conditional")), "divert:cond", "a conditional divert is followed although its condition is false", truthy)
    q.implies("objects", E, B.AND(E.when(r"^call StoryState::pop_evaluation_stack$"), div), "divert:pop", "a divert without a condition takes a value off the stack", D("is_conditional"))
    push = B.AND(E.when(r"^call CallStack::push$"), div)
    q.occurs("objects", E, push, "divert:push:some", "no divert pushes a frame")
    q.implies("objects", E, push, "divert:push", "a divert that is no tunnel or function call pushes a frame", D("pushes_to_stack"))
    q.never("objects", E, B.AND(push, B.AND(D("is_external"), B.NOT(E.lit(r"^dc<Divert>\(p2\)\.variable_divert_name\?$")))), "divert:push:external", "an external call pushes a frame")
    ext = E.when(r"^call Story::call_external_function$")
    q.implies("objects", E, ext, "divert:external", "a divert that is not external calls the host", D("is_external"))
    jump = E.when(r"^call StoryState::set_diverted_pointer$", r"Divert::get_target_pointer\(dc<Divert>")
    q.occurs("objects", E, jump, "divert:jump", "a divert does not go to its target")
    q.never("objects", E, B.AND(jump, E.lit(r"^dc<Divert>\(p2\)\.variable_divert_name\?$")), "divert:variable", "a divert through a variable goes to a fixed target")
    var = E.when(r"^call StoryState::set_diverted_pointer$", r"variable_divert_name")
    q.occurs("objects", E, var, "divert:var:some", "a divert through a variable goes nowhere")
    # the way back of what is called: its kind, and the output so far for a function
    for t, v, f in E.sites(r"^call CallStack::push$"):
        v = contract.full(v)
        q.ctx.expect("objects", re.search(r", dc<Divert>\(p2\)\.stack_push_type, 0, Vec::len\(p1\.state\.current_flow\.output_stream\)$", v), "divert:frame", f"the frame of a call is {v[:120]}", E.at)
    # assignment, reference, function
    a = E.when(r"^call VariablesState::assign$", rf"dc<VariableAssignment>\(p2\), dc<Value>\({POP}\)$")
    q.occurs("objects", E, a, "assign", "an assignment does not assign the value taken off the stack")
    q.implies("objects", E, E.when(r"^call VariablesState::assign$"), "assign:only", "something else than an assignment assigns", dc["VariableAssignment"])
    r = E.lit(r"^dc<VariableReference>\(p2\)\.path_for_count\?$")
    q.implies("objects", E, E.when(r"^call StoryState::visit_count_for_container$", r"get_container_for_count"), "ref:count", "a plain variable gives a read count", r)
    q.never("objects", E, B.AND(B.AND(E.when(r"^call StoryState::push_evaluation_stack$", r"get_variable_with_name|get_raw_variable"), dc["VariableReference"]), r), "ref:value", "a read count gives a variable")
    n = E.when(r"^call StoryState::push_evaluation_stack$", r"NativeFunctionCall::call\(dc<NativeFunctionCall>\(p2\),StoryState::pop_evaluation_stack_multiple")
    q.occurs("objects", E, n, "native", "the result of an operator is not put on the stack")
    q.implies("objects", E, E.when(r"^return$", r"^False$"), "content", "a divert, command, assignment, reference or operator is taken for content",
              B.AND(B.AND(B.AND(B.NOT(dc["Divert"]), B.NOT(dc["ControlCommand"])), B.AND(B.NOT(dc["VariableAssignment"]), B.NOT(dc["VariableReference"]))), B.NOT(dc["NativeFunctionCall"])), E.lit(r"!^p2\?$"))
    q.implies("objects", E, E.when(r"^return$", r"^True$"), "logic", "content is taken for logic", *[dc[k] for k in KINDS])


def counting(q):
    E = q.need("Story::visit_container", "counting")
    if E:
        B = E.B
        start = B.OR(E.lit(r"!^p2\.counting_at_start_only$"), E.lit(r"^p3$"))
        q.same("counting", E, E.when(r"^call StoryState::increment_visit_count_for_container$", r"^p1\.state, p2$"), B.AND(E.lit(r"^p2\.visits_should_be_counted$"), start), "visit", "a visit is not counted exactly when its container counts visits (there, or at its start)")
        q.same("counting", E, E.when(r"^call StoryState::record_turn_index_visit_to_container$", r"^p1\.state, p2$"), B.AND(E.lit(r"^p2\.turn_index_should_be_counted$"), start), "turn", "a turn is not recorded exactly when its container records turns (there, or at its start)")
    E = q.need("StoryState::increment_visit_count_for_container", "counting")
    if E:
        B = E.B
        p = E.lit(r"^p1\.patch\?$")
        q.same("counting", E, E.when(r"^call StatePatch::set_visit_count$", r"\(1 Add StoryState::visit_count_for_container\(p1,p2\)\)$|\(StoryState::visit_count_for_container\(p1,p2\) Add 1\)$"), p, "inc:patch", "looking ahead, a visit is not one more than before, in the patch")
        q.same("counting", E, E.when(r"^mut StoryState\.visit_counts insert$", r"\(1 Add φ\{0\|p1\.visit_counts\[|Add 1\)$|^.*, \(1 Add "), B.NOT(p), "inc:counts", "a visit is not one more than before")
    E = q.need("StoryState::visit_count_for_container", "counting")
    if E:
        B = E.B
        p = B.AND(E.lit(r"^p1\.patch\?$"), E.lit(r"^StatePatch::get_visit_count\(p1\.patch,p2\)′?\?$"))
        on = E.lit(r"^p2\.visits_should_be_counted$")
        q.same("counting", E, E.when(r"^return$", r"^StatePatch::get_visit_count\(p1\.patch,p2\)$"), B.AND(on, p), "read:patch", "a count of the look-ahead is not what is read first")
        q.same("counting", E, E.when(r"^return$", r"^p1\.visit_counts\["), B.AND(B.AND(on, B.NOT(p)), E.lit(r"^p1\.visit_counts\[.*\]′?\?$")), "read:counts", "the visits counted are not what is read")
    E = q.need("StoryState::record_turn_index_visit_to_container", "counting")
    if E:
        p = E.lit(r"^p1\.patch\?$")
        q.same("counting", E, E.when(r"^call StatePatch::set_turn_index$", r"p1\.current_turn_index$"), p, "turn:patch", "looking ahead, the turn is not recorded in the patch")
        q.same("counting", E, E.when(r"^mut StoryState\.turn_indices insert$", r"p1\.current_turn_index$"), E.B.NOT(p), "turn:store", "the turn is not recorded")
    E = q.need("StoryState::turns_since_for_container", "counting")
    if E:
        B = E.B
        on = E.lit(r"^p2\.turn_index_should_be_counted$")
        p = B.AND(E.lit(r"^p1\.patch\?$"), E.lit(r"^StatePatch::get_turn_index\(p1\.patch,p2\)′?\?$"))
        k = E.lit(r"^p1\.turn_indices\[.*\]′?\?$")
        q.same("counting", E, E.when(r"^return$", r"^-1$"), B.AND(on, B.AND(B.NOT(p), B.NOT(k))), "since:never", "TURNS_SINCE is -1 for what was visited, or not for what was not")
        q.same("counting", E, E.when(r"^return$", r"^(Sub::sub\(|\()p1\.current_turn_index(,| Sub )StatePatch::get_turn_index\(p1\.patch,p2\)\)$"), B.AND(on, p), "since:patch", "TURNS_SINCE does not see the look-ahead")
        q.same("counting", E, E.when(r"^return$", r"^(Sub::sub\(|\()p1\.current_turn_index(,| Sub )p1\.turn_indices\["), B.AND(on, B.AND(B.NOT(p), k)), "since:store", "TURNS_SINCE is not this turn less the turn recorded")
    E = q.need("Story::visit_changed_containers_due_to_divert", "counting")
    if E:
        f = E.when(r"^call Story::visit_container$")
        q.occurs("counting", E, f, "divert:some", "a divert visits nothing")
        q.never("counting", E, E.B.AND(f, E.lit(rf"^{CUR}\.current_pointer\.index == -1$")), "divert:container", "a divert to a whole container counts its visit twice")
    # who counts
    callers = sorted({c for c, ts in callers_of(q.A, ("Story::visit_container",)).items()})
    q.subset("counting", callers, ["Story::visit_changed_containers_due_to_divert", "Story::step"], "who", "visits are counted elsewhere")


def callers_of(A, names):
    from names import short
    out = {}
    for b in A.fns():
        for x, t in A.I.get(b, lambda y: False, "plain").calls() if False else b_calls(A, b):
            for y in A.cg.targets(t[1]) if "ind" not in t[1] else ():
                if short(y.path) in names:
                    out.setdefault(re.sub(r"::\{closure.*", "", short(b.path)), []).append(x)
    return out


def b_calls(A, b):
    for i, bl in enumerate(b.blocks):
        if bl["t"][0] == "call":
            yield i, bl["t"]


def choices(q):
    E = q.need("Story::process_choice", "choices")
    if E:
        B = E.B
        cond, once = E.lit(r"^p2\.has_condition$"), E.lit(r"^p2\.once_only$")
        truthy = E.lit(rf"^Story::is_truthy\(p1,{POP}\)′?$")
        read = E.lit(r"^0′? < StoryState::visit_count_for_container\(")
        made, none = E.when(r"^return$", r"^Choice\{"), E.when(r"^return$", r"^None$")
        q.occurs("choices", E, made, "some", "no choice is ever made")
        q.implies("choices", E, B.AND(made, cond), "cond", "a choice is offered although its condition is false", truthy)
        q.never("choices", E, B.AND(made, B.AND(once, read)), "once", "a once-only choice is offered again")
        q.implies("choices", E, none, "none", "a choice is left out without a reason", B.AND(cond, B.NOT(truthy)), B.AND(once, read))
        q.same("choices", E, E.when(r"^call StoryState::pop_evaluation_stack$"), cond, "pop", "the condition is not taken off the stack exactly when there is one")
        t = E.when(r"^call Story::pop_choice_string_and_tags$")
        q.implies("choices", E, t, "text", "text is taken off the stack that is not there", E.lit(r"^p2\.has_start_content$"), E.lit(r"^p2\.has_choice_only_content$"))
        ok = E.lit(r"^Story::pop_choice_string_and_tags\(.*\)′?\?$")
        for n in ("has_start_content", "has_choice_only_content"):
            q.implies("choices", E, B.AND(B.OR(made, none), E.lit(rf"^p2\.{n}$")), f"text:{n}", "the text of a choice stays on the stack", t)
        q.implies("choices", E, E.when(r"^call CallStack::fork_thread$"), "fork", "a thread is kept for no choice", made)
        for _, v, f in E.sites(r"^return$", r"^Choice\{"):
            v = contract.full(v)
            for n, p in (("thread_at_generation", r"CallStack::fork_thread\("), ("is_invisible_default", r"p2\.is_invisible_default"), ("target_path", r"ChoicePoint::get_path_on_choice\(p2\)|p2\.path_on_choice"), ("source_path", r"Object::get_path\(p2\)")):
                q.ctx.expect("choices", re.search(n + r":[^,]*?" + p, v), f"field:{n}", f"a choice's {n} is not {p}", E.at)
        fork_late = E.can_follow(r"^call CallStack::fork_thread$", r"^call StoryState::visit_count_for_container$")
        q.ctx.expect("choices", not fork_late, "fork:order", "the thread of a choice is kept before it is known whether it is offered", E.at)
    E = q.need("Story::try_follow_default_invisible_choice", "choices")
    if E:
        B = E.B
        f = E.when(r"^call Story::choose_path$")
        q.occurs("choices", E, f, "fallback:some", "a fallback choice is never taken")
        q.never("choices", E, B.AND(f, E.lit(r"^empty\(Vec::new\(\)\)$")), "fallback:none", "a fallback choice is taken where there is none")
        q.never("choices", E, B.AND(f, E.lit(r"^Vec::len\(Vec::new\(\)\) < Vec::len\(p1\.state\.current_flow\.current_choices\)$")), "fallback:others", "a fallback choice is taken although there are others")
        for _, v, g in E.sites(r"^call Story::choose_path$"):
            q.ctx.expect("choices", v.endswith(", False"), "fallback:turn", "following a fallback choice counts as a turn", E.at)
        q.implies("choices", E, E.when(r"^local push$"), "fallback:which", "a choice that is no fallback is taken for one", E.lit(r"\.is_invisible_default$"))
        q.implies("choices", E, E.when(r"^call CallStack::fork_thread$"), "fallback:fork", "the thread of a fallback is copied without need", E.lit(r"^p1\.state_snapshot_at_last_new_line\?$"))
    E = q.need("Story::choose_choice_index", "choices")
    if E:
        f = E.when(r"^call Story::choose_path$", r", True$")
        q.occurs("choices", E, f, "choose:turn", "choosing does not count as a turn")
        q.implies("choices", E, f, "choose:range", "a choice that is not offered is taken", E.lit(r"^p2 < Vec::len\(Story::get_current_choices\(p1\)\)$"))
        q.implies("choices", E, f, "choose:thread", "a choice is taken outside its thread", E.when(r"^call CallStack::set_current_thread$"))
        q.ctx.expect("choices", not E.can_follow(r"^call Story::choose_path$", r"^call CallStack::set_current_thread$"), "choose:order", "the thread of a choice is set after its path", E.at)
    E = q.need("Story::get_current_choices", "choices")
    if E:
        f = E.when(r"^local push$|^mut .* push$")
        if f:
            q.never("choices", E, E.B.AND(f, E.lit(r"\.is_invisible_default$")), "offered:fallback", "a fallback choice is shown")
        q.ctx.expect("choices", E.atoms(r"is_invisible_default") or any("is_invisible_default" in contract.full(v) for _, v, _ in E.sites(".")), "offered:seen", "fallback choices are not left out of what is shown", E.at)


def stepping(q):
    X = q.ctx.expect
    E = q.need("Story::next_content", "stepping")
    if E:
        B = E.B
        prev, cur, clr = E.when(r"^call StoryState::set_previous_pointer$"), E.when(r"^call StoryState::set_current_pointer$", r"p1\.state\.diverted_pointer"), E.when(r"^call StoryState::set_diverted_pointer$", r"NULL")
        X("stepping", prev == 1, "prev", "where the story came from is not always kept", E.at)
        div = E.lit(r"^p1\.state\.diverted_pointer\.container′?\?$")
        for f, k, m in ((cur, "divert", "goes to its target"), (clr, "divert:once", "is done with"), (E.when(r"^call Story::visit_changed_containers_due_to_divert$"), "divert:visit", "visits what it enters")):
            q.same("stepping", E, f, div, k, f"not every divert, or more than a divert, {m}")
        X("stepping", not E.can_follow(r"^call StoryState::set_current_pointer$", r"^call StoryState::set_previous_pointer$"), "prev:order", "where the story came from is noted after it has moved", E.at)
        X("stepping", not E.can_follow(r"^call Story::visit_changed_containers_due_to_divert$", r"^call StoryState::set_current_pointer$"), "visit:order", "visits are counted before the story has moved", E.at)
        inc = E.lit(r"^Story::increment_content_pointer\(p1\)′?$")
        for t in (r"^call StoryState::pop_callstack$", r"^call CallStack::pop_thread$", r"^call StoryState::try_exit_function_evaluation_from_game$", r"^call Story::next_content$"):
            q.occurs("stepping", E, E.when(t), f"end:{t[6:]}:some", f"{t[6:-1]} never happens at the end of content")
            q.never("stepping", E, B.AND(E.when(t), inc), f"end:{t[6:]}", f"{t[6:-1]} happens before the end of content")
        fn = E.lit(rf"^{CUR}\.push_pop_type is Function$")
        for _, v, f in E.sites(r"^call StoryState::pop_callstack$"):
            X("stepping", "PushPopType::Function" in v, "end:function", f"at the end of content {v} is left", E.at)
            q.implies("stepping", E, f, "end:function:only", "the end of something that is no function returns", E.lit(r"\.push_pop_type (is Function|== PushPopType::Function\{\})"), E.lit(r"PushPopType::Function\{\} == "))
        v = E.when(r"^call StoryState::push_evaluation_stack$", r"Void")
        q.occurs("stepping", E, v, "void", "a function without a return gives nothing to its caller's expression")
        q.implies("stepping", E, v, "void:expr", "a value is left behind by a call outside an expression", E.lit(r"in_expression_evaluation′?$"))
        q.implies("stepping", E, v, "void:pop", "a void is left without a return", E.when(r"^call StoryState::pop_callstack$"))
    E = q.need("Story::step", "stepping")
    if E:
        B = E.B
        logic = E.lit(r"^Story::perform_logic_and_flow_control\(.*\)′?$")
        out, ev = E.when(r"^call StoryState::push_to_output_stream$"), E.when(r"^call StoryState::push_evaluation_stack$")
        mode = E.lit(r"in_expression_evaluation′?$")
        q.occurs("stepping", E, out, "content:out", "no content is shown")
        q.occurs("stepping", E, ev, "content:ev", "no content reaches an expression")
        q.never("stepping", E, B.AND(B.OR(out, ev), logic), "content:logic", "logic is shown")
        q.never("stepping", E, B.AND(out, mode), "content:mode", "the values of an expression are shown")
        q.implies("stepping", E, ev, "content:expr", "text is kept on the evaluation stack", mode)
        ch = E.lit(r"^dc<ChoicePoint>\(.*\?$")
        q.never("stepping", E, B.AND(B.OR(out, ev), ch), "choice:content", "a choice point is shown")
        q.implies("stepping", E, E.when(r"^call Story::process_choice$"), "choice:what", "something else than a choice point makes a choice", ch)
        add = E.when(r"^mut Flow\.current_choices push$")
        q.implies("stepping", E, add, "choice:add", "a choice is offered that was not made", E.when(r"^call Story::process_choice$"))
        q.occurs("stepping", E, add, "choice:add:some", "no choice is offered")
        th = E.when(r"^call CallStack::push_thread$")
        q.implies("stepping", E, th, "thread:what", "something else than a thread start starts a thread", E.lit(r" is StartThread$"))
        X("stepping", not E.can_follow(r"^call CallStack::push_thread$", r"^call Story::next_content$"), "thread:order", "a thread starts before the story has moved past its start: it would run twice", E.at)
        for _, v, f in E.sites(r"^call Story::visit_container$"):
            X("stepping", contract.full(v).endswith(", True"), "enter:start", "a container entered from its start is not counted as such", E.at)
        q.occurs("stepping", E, E.when(r"^call Story::visit_container$"), "enter", "entering a container counts no visit")
    E = q.need("StoryState::force_end", "stepping")
    if E:
        for t, v, m in ((r"^call CallStack::reset$", ANY, "leaves frames"), (r"^mut Flow\.current_choices clear$", ANY, "leaves choices"), (r"^call StoryState::set_current_pointer$", "NULL", "does not stop"),
                        (r"^call StoryState::set_previous_pointer$", "NULL", "remembers where it was"), (r"^call StoryState::set_did_safe_exit$", r"True$", "is taken for a fault")):
            X("stepping", E.when(t, v) == 1, f"end:{m}", f"the end of a story {m}", E.at)


def lines(q):
    X = q.ctx.expect
    E = q.need("Story::calculate_newline_output_state_change", "lines")
    if not E:
        return
    B = E.B
    nl = B.AND(B.AND(E.lit(r"!^str::len\(p2\) < str::len\(p1\)$"), E.lit(r"!^empty\(p1\)$")), E.lit(r"^str::as_bytes\(p2\)\[\(str::len\(p1\) Sub 1\)\] == 10$"))
    tags, more = E.lit(r"^p3 == p4$"), E.lit(r"^p3 < p4$")
    R = {v.split("::")[1].split("{")[0]: f for _, v, f in E.sites(r"^return$")}
    X("lines", set(R) == {"NoChange", "NewlineRemoved", "ExtendedBeyondNewline"}, "outcomes", f"outcomes of looking past a newline: {sorted(R)}", E.at)
    q.implies("lines", E, R.get("ExtendedBeyondNewline", 0), "beyond", "a line is taken as finished although its newline is gone", nl)
    q.implies("lines", E, R.get("NoChange", 0), "same", "a newline that is gone is taken as still there", nl)
    q.never("lines", E, B.AND(R.get("NewlineRemoved", 0), nl), "removed", "a newline that is still there is taken as gone")
    q.never("lines", E, B.AND(B.AND(R.get("NoChange", 0), more), B.NOT(tags)), "tags", "a new tag does not start a new line")
    sp = B.OR(E.lit(r"^each\(.*\) == 32$"), E.lit(r"^each\(.*\) == 9$"))
    X("lines", E.lit(r"^each\(.*\) == 32$") != 0 and E.lit(r"^each\(.*\) == 9$") != 0 or any("32" in n and "9" in n for n in map(contract.full, E.meta)), "space", "space and tab after a newline are not told from text", E.at)


def check(ctx):
    ctx.rule("names", "every word of the compiled format stands for its command or operator")
    ctx.rule("commands", "each command of the compiled format has the effects the language gives it, and only it has them; expressions, threads, returns and ends are entered and left when they may be")
    ctx.rule("objects", "diverts, assignments, references and operators: condition, target, frame, values taken and given")
    ctx.rule("counting", "visits and turns are counted exactly where and when the container asks for it, once, in the patch while looking ahead, and read from there")
    ctx.rule("choices", "a choice is made exactly when its condition is true and it was not used up; fallbacks are taken only when alone and are not shown; choosing counts a turn and takes the choice's thread")
    ctx.rule("stepping", "one step: where content goes, what a divert does, what the end of content leaves, when a thread starts")
    ctx.rule("lines", "what is found past a newline ends the line, removes its newline, or neither")
    q = Q(ctx)
    tokens.readers(q, "names")
    commands(q)
    objects(q)
    counting(q)
    choices(q)
    stepping(q)
    lines(q)
