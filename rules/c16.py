"""C16: host evaluation of an Ink function: refusal before any change, isolation of stacks, output and position, value and text returned."""
import re
from common import Q
from eff import callers, contract

F = "Story::evaluate_function"
S = "StoryState::"
FRAME = r"push_pop_type is FunctionEvaluationFromGame$"


def check(ctx):
    q = Q(ctx)
    A, X = q.A, ctx.expect
    RF, OU, FR, AR, VA, TX, IS = "refuse", "output", "frame", "arguments", "value", "text", "isolate"
    ctx.rule(RF, "an unfinished continue, an empty or unknown name, or an argument that cannot be passed is refused before anything changed, and nothing else is")
    ctx.rule(OU, "the pending output is taken before it is cleared and put back on every way out")
    ctx.rule(FR, "the evaluation runs in a frame of its own, remembered with the height of the evaluation stack before the arguments, removed again with everything above that height; the previous position is put back")
    ctx.rule(AR, "every argument is pushed once, in order and unaltered; exactly the kinds the check accepts are pushed")
    ctx.rule(VA, "the value returned is the topmost one the function left (void and none give no value, a divert target its path)")
    ctx.rule(TX, "all text the function produces, and only that, is appended for the host")
    ctx.rule(IS, "inside an evaluation frame the engine follows no invisible default choice, and leaving the frame stops the run")

    E = q.need(F, RF)
    if E:
        B = E.B
        sync = E.lit(r"!^p1\.async_continue_active$")
        named = E.lit(r"!^empty\(str::trim\(p2\)\)$")
        known = E.lit(r"named_content\[p2\]\?$|knot_container_with_name\(p1,p2\)\?$")
        argok = E.lit(r"^StoryState::check_arguments\(p3\)\?$")
        accept = B.AND(sync, B.AND(named, B.AND(known, argok)))
        start = E.when(r"^call StoryState::start_function_evaluation_from_game$")
        q.same(RF, E, start, accept, "accepted", "the function does not start exactly when the name exists and the arguments can be passed")
        for t, v, f in E.sites(r"^(set|mut|call|io|call\*)"):
            if re.match(r"^call (StoryState::check_arguments|Story::if_async_we_cant)$", t):
                continue
            q.implies(RF, E, f, f"early:{t}", f"{t} can happen in a refused evaluation", accept)
        ref = E.when("^return$", r"^Err\((BadArgument|InvalidStoryState)\)$")
        q.implies(RF, E, B.AND(B.NOT(accept), B.NOT(ref)), "reported", "a refused evaluation is not an Err", E.lit(r"!^StoryState::check_arguments\(p3\)\?$"))
        # output
        clr = E.when(r"^call StoryState::reset_output$", r", None$")
        rst = E.when(r"^call StoryState::reset_output$", r"^p1\.state, p1\.state\.current_flow\.output_stream°$")
        q.same(OU, E, clr, accept, "cleared", "the pending output is not set aside")
        loose = [v for _, v, f in E.sites(r"^call StoryState::reset_output$") if not re.search(r", None$|output_stream°$", v)]
        X(OU, not loose, "value", f"the output is replaced by {[contract.full(v)[:120] for v in loose]} instead of what was pending", E.at)
        started = E.lit(r"^StoryState::start_function_evaluation_from_game\(.*\)\?$")
        contok = E.lit(r"^Story::cont\(p1\)\?$")
        q.implies(OU, E, B.AND(B.AND(start, started), B.NOT(rst)), "restored", "an evaluation ends without putting the pending output back", contok)
        # frame
        cmp_ = E.when(r"^call StoryState::complete_function_evaluation_from_game$")
        canc = B.OR(E.lit(r"current_pointer\.container\?$"), 0)
        q.implies(FR, E, B.AND(B.AND(start, started), B.NOT(cmp_)), "completed", "an evaluation that ran to its end leaves its frame behind", canc)
        done = E.lit(r"^StoryState::complete_function_evaluation_from_game\(p1\.state\)\?$")
        pv = E.when(r"^call StoryState::set_previous_pointer$|^set Thread\.previous_pointer$", r"previous_pointer.*°$")
        q.implies(FR, E, B.AND(B.AND(cmp_, done), B.NOT(pv)), "previous", "the previous position is not put back")
        bad = [v for _, v, _ in E.sites(r"^call StoryState::set_previous_pointer$|^set Thread\.previous_pointer$") if not v.endswith("°")]
        X(FR, not bad, "previous-value", "the previous position put back is not the one from before the call", E.at)
        X(FR, not E.can_follow(r"^call StoryState::(set_previous_pointer|complete_function_evaluation_from_game)$", r"^call Story::cont$"), "order", "the story continues after the frame was taken down", E.at)
        r = E.when("^return$", r"complete_function_evaluation_from_game")
        q.implies(VA, E, B.AND(B.AND(cmp_, done), B.NOT(r)), "returned", "the function's value is not returned")
        # text
        c = E.when(r"^call Story::cont$")
        out = E.when(r"^mut p4 push_str$|^mut p4 (extend|push)|^set p4$", r"Story::cont\(p1\)")
        q.implies(TX, E, B.AND(B.AND(c, E.lit(r"^Story::cont\(p1\)\?$")), B.NOT(out)), "kept", "text the function printed is lost")
        more = [(t, v) for t, v, _ in E.sites(r"^(mut|set) p4") if "Story::cont(p1)" not in v and "clear" not in t]
        X(TX, not more, "only", f"the host also receives {more}", E.at)
        q.implies(TX, E, B.AND(B.AND(start, started), B.AND(E.lit(r"current_pointer\.container\?$"), B.AND(E.lit(r"^empty\(p1\.state\.current_errors\)$"), B.NOT(E.forget(c, r"^φ\{None\|.*Story::cont"))))), "whole", "the function is not continued while it can")

    E = q.need(S + "start_function_evaluation_from_game", FR)
    if E:
        p = E.sites(r"^call CallStack::push$")
        X(FR, len(p) == 1 and p[0][2] == 1, "push", "a frame is not pushed exactly once", E.at)
        for _, v, _ in p:
            X(FR, re.search(r"FunctionEvaluationFromGame", v) is not None, "push-kind", f"the frame pushed is {v}", E.at)
            X(FR, re.search(r"Vec::len\(p1\.evaluation_stack\),", v) is not None, "push-height", f"the height remembered is not that of the evaluation stack: {v}", E.at)
        X(FR, not E.can_follow(r"^call StoryState::pass_arguments", r"^call CallStack::push$"), "push-first", "the height is taken after the arguments were pushed", E.at)
        X(FR, any(f == 1 and re.search(r"container:p2, index:0\}|start_of\(p2\)", v) for _, v, f in E.sites(r"current_pointer")), "entry", "the function is not entered at its start", E.at)
        X(FR, not E.can_follow(r"current_pointer$", r"^call CallStack::push$"), "entry-order", "the position is moved before the frame exists", E.at)
        X(AR, any(f == 1 and re.search(r"^p1, p3$", v) for _, v, f in E.sites(r"^call StoryState::pass_arguments")), "passed", "the arguments are not all passed", E.at)
    c = callers(A, S + "start_function_evaluation_from_game")
    q.subset(FR, c, [F], "starter", "an evaluation frame is also started by")

    E = q.need(S + "complete_function_evaluation_from_game", FR)
    if E:
        B = E.B
        mine = E.lit(FRAME)
        pop = E.when(r"^call CallStack::pop$|^call StoryState::pop_callstack$", r"FunctionEvaluationFromGame")
        q.same(FR, E, pop, mine, "popped", "the frame is not taken down exactly when it is on top")
        X(FR, all("FunctionEvaluationFromGame" in v for _, v, _ in E.sites(r"^call (CallStack::pop|StoryState::pop_callstack)$")), "popped-kind", "another kind of frame is popped", E.at)
        above = [n for n in E.meta if re.search(r"evaluation_stack_height_when_pushed|…", n) and "< Vec::len(p1.evaluation_stack)" in n.replace("′", "")]
        X(FR, bool(above), "height", "what the function left on the evaluation stack is not measured against the height remembered", E.at)
        pe = E.when(r"^call StoryState::pop_evaluation_stack$|^mut StoryState\.evaluation_stack (pop|truncate|drain)")
        q.occurs(FR, E, pe, "cleaned", "what the function left on the evaluation stack stays there")
        q.implies(FR, E, pe, "cleaned-own", "values of the story are popped", mine)
        if above:
            a = 0
            for n in above:
                a = B.OR(a, B.var(n))
            q.implies(FR, E, pe, "cleaned-bound", "values below the remembered height are popped", a)
            q.implies(FR, E, B.AND(B.AND(mine, a), B.NOT(pe)), "cleaned-all", "values above the remembered height stay")
        X(FR, not E.can_follow(r"^call CallStack::pop$", r"^call StoryState::pop_evaluation_stack$"), "cleaned-first", "the frame is gone before its values were cleaned up", E.at)
        # values
        first = [n for n in E.meta if re.match(r"^φ\{None\|StoryState::pop_evaluation_stack\(p1\)\}", n)]
        X(VA, bool(first) or not E.K, "topmost", "the value kept is not the first one popped", E.at)
        for t, v, f in E.sites("^return$", "value"):
            q.implies(VA, E, f, f"value:{v[-24:]}", "something other than a value is returned as one", r"^dc<Value>\(")
            q.never(VA, E, B.AND(f, E.lit(r"^dc<Void>\(")), f"void:{v[-24:]}", "void is returned as a value")
    # arguments
    P, C = q.need(S + "pass_arguments_to_evaluation_stack", AR), q.need(S + "check_arguments", AR)
    if P and C:
        KINDS = {"Bool", "Int", "Float", "String", "List"}
        push = P.when(r"^call StoryState::push_evaluation_stack$|^mut StoryState\.evaluation_stack push$")
        rej = P.when("^return$", "^Err")
        for k in sorted(KINDS):
            is_ = P.lit(rf"^each\(.*\) is {k}$")
            q.never(AR, P, P.B.AND(rej, is_), f"rejects:{k}", f"an argument of kind {k} is rejected when it is passed")
            if is_ != 0:
                q.implies(AR, P, P.B.AND(is_, P.B.NOT(push)), f"pushes:{k}", f"an argument of kind {k} is not pushed", r"!^p2\?$")
        cr = C.when("^return$", "^Err")
        for k in sorted(KINDS):
            q.never(AR, C, C.B.AND(cr, C.lit(rf"^each\(.*\) is {k}$")), f"refuses:{k}", f"an argument of kind {k} is refused")
        for k in ("DivertTarget", "VariablePointer"):
            is_ = C.lit(rf"^each\(.*\) is {k}$")
            q.occurs(AR, C, C.B.AND(cr, is_), f"accepts:{k}", f"an argument of kind {k} is not refused")
        X(AR, all(re.search(r"each\(p2\)|True|False", v) for _, v, _ in P.sites(r"^call StoryState::push_evaluation_stack$")), "unaltered", "a pushed value is not the argument", P.at)
        bag = set(P.S["bag"])
        X(AR, not [x for x in bag if x.removeprefix("fn ").split("::")[-1] in ("rev", "reverse", "skip", "take", "sort", "dedup")], "in-order", "arguments are reordered or left out", P.at)
    E = q.need(S + "reset_output", OU)
    if E:
        X(OU, E.when(r"^(mut Flow\.output_stream clear|set Flow\.output_stream)$") == 1, "clear", "the output is not replaced as a whole", E.at)
        X(OU, E.when(r"^call StoryState::output_stream_dirty$|^set StoryState\.output_stream_(text|tags)_dirty$", None) == 1, "dirty", "cached text and tags survive an output replacement", E.at)
        put = E.when(r"^mut Flow\.output_stream (push|extend|append)|^set Flow\.output_stream$", r"p2")
        q.implies(OU, E, E.B.AND(E.lit(r"^p2\?$"), E.B.NOT(put)), "all", "not all of the output is put back")
        X(OU, not E.can_follow(r"^mut Flow\.output_stream push$", r"^mut Flow\.output_stream clear$"), "order", "the output is cleared after it was put back", E.at)
    # isolation
    E = q.need("Story::continue_single_step", IS)
    if E:
        q.never(IS, E, E.B.AND(E.when(r"^call Story::try_follow_default_invisible_choice$"), E.lit(FRAME)), "choice", "an invisible choice of the story is taken inside a host evaluation")
    E = q.need(S + "try_exit_function_evaluation_from_game", IS)
    if E:
        mine = E.lit(FRAME)
        q.same(IS, E, E.when(r"^call StoryState::set_current_pointer$|^set Element\.current_pointer$", "NULL"), mine, "stop", "leaving the function does not stop the run exactly in an evaluation frame")
        q.same(IS, E, E.when(r"^set StoryState\.did_safe_exit$", "True"), mine, "safe", "leaving the function is not a safe exit")
        q.same(IS, E, E.when("^return$", "^True$"), mine, "told", "the caller is told wrongly whether the function was left")
