"""C08: slicing a continue: the step machinery cannot observe the slicing, a pause touches nothing the story can see, resuming does not restart, everything else is refused meanwhile."""
import re
from common import Q
from eff import callers, field_users, reach, writers
from names import short

CI = "Story::continue_internal"
ASYNC = r"^p1\.async_continue_active$"
HOSTSIDE = {"Story::set_error_handler", "Story::set_allow_external_function_fallbacks"}   # change no story state
DRIVERS = {"Story::cont", "Story::continue_async"}
SILENT = re.compile(r"^call (Story::(if_async_we_cant|can_continue|content_at_path|get_current_choices)|Path::\w+)$")


def check(ctx):
    q = Q(ctx)
    A, X = q.A, ctx.expect
    IN, ST, PA, CO, US, GA, LI = "blind", "resume", "pause", "count", "usable", "gate", "line"
    ctx.rule(IN, "nothing that runs inside a step reads the clock, the time limit or the slicing fields: the sequence of steps is the same however it is sliced")
    ctx.rule(ST, "what opens a line (clearing output and old warnings, opening the batch, clearing the safe exit) happens exactly on a continue that resumes nothing")
    ctx.rule(PA, "what closes a line (rewind, end-of-content errors, closing the batch, reporting) happens exactly when the line is complete, never at a pause")
    ctx.rule(CO, "the nesting count goes up and down once on every path that runs")
    ctx.rule(US, "the unfinished mark is set exactly by a time-limited continue and gone when the line is complete or a blocking continue took over")
    ctx.rule(GA, "while a continue is unfinished every other state-changing public method changes nothing and answers Err")
    ctx.rule(LI, "a blocking continue is a continue without limit followed by reading the line")

    # the step machinery is blind to the slicing
    inside = reach(A, ["Story::continue_single_step"])
    ctx.count("functions that can run inside a step", len(inside), 200, IN)
    for f, allowed in (("async_continue_active", {CI, "Story::if_async_we_cant"}), ("recursive_continue_count", {CI})):
        us = field_users(A, "Story", f)
        X(IN, bool(us), f"field:{f}", f"Story.{f} is gone")
        bad = sorted(us & inside)
        X(IN, not bad, f"inside:{f}", f"Story.{f} is looked at inside a step by {bad}")
        for u in sorted(us - allowed):
            X(IN, callers(A, u) and not ({u} & inside) and A.I.is_known(next(b for b in A.fns() if short(b.path) == u)) is False, f"user:{f}:{u}", f"Story.{f} is also used by {u}")
    q.subset(IN, sorted(inside & {"Story::if_async_we_cant", CI, "Story::continue_async", "Story::cont"}), [], "reenter", "a step can start another continue through")
    for b in A.crate.bodies.values():
        n = short(b.path.split("::{closure")[0])
        for _, t in b.calls():
            f = t[1]
            nm = str(f.get("r") or f.get("p") or "")
            if re.search(r"(Instant|SystemTime)(::|>::)|std::time::|web_time::", nm):
                X(IN, n == CI or n not in inside, f"clock:{n}", f"{n} reads the clock ({nm})", f"{b.file}:{t[5]}")

    E = q.need(CI, ST)
    if E:
        B = E.B
        run = E.lit(ASYNC)
        css = E.when(r"^call Story::continue_single_step$")
        ok = B.AND(css, B.NOT(run))
        limit = E.lit(r'^"0\.0" < p2$')
        X(US, limit != 0, "limit", "the time limit is not looked at", E.at)
        # opening
        outer = E.lit(r"recursive_continue_count′? == 1$")
        for nm, tre, vre, cond in (("output", r"^call StoryState::reset_output$", "None$", ok),
                                   ("warnings", r"^call StoryState::reset_warnings$", None, B.AND(ok, E.lit(r"^p1\.warnings_reported$"))),
                                   ("batch", r"^call VariablesState::start_variable_observation$", None, B.AND(ok, outer)),
                                   ("reported", r"^set Story\.warnings_reported$", "^False$", B.AND(ok, E.lit(r"^p1\.warnings_reported$")))):
            q.same(ST, E, E.when(tre, vre), cond, nm, f"opening a line ({nm}) does not happen exactly when nothing is resumed")
        q.implies(ST, E, B.AND(ok, B.NOT(E.when(r"^call StoryState::set_did_safe_exit$|^set StoryState\.did_safe_exit$", "False$"))), "safe-exit", "a new line starts with the last one's safe exit")
        for o in (r"^call StoryState::reset_output$", r"^call StoryState::reset_warnings$"):
            X(ST, not E.can_follow(r"^call Story::continue_single_step$", o), f"before:{o[6:]}", "a line is opened after its first step", E.at)
        # closing: the line is complete when a step says so, fails, or nothing is left
        cant = B.OR(E.lit(r"!current_pointer\.container′\?$"), E.lit(r"!^empty\(p1\.state\.current_errors\)′$"))
        okst = E.lit(r"^Story::continue_single_step\(p1\)′?\?$")
        done = B.OR(B.AND(okst, E.lit(r"^Story::continue_single_step\(p1\)′?$")), cant)
        X(PA, cant != 0 and okst != 0, "complete", "completion is not recognised", E.at)
        rs = E.when(r"^call Story::restore_state_snapshot$")
        q.same(PA, E, rs, B.AND(B.AND(css, done), E.lit(r"^p1\.state_snapshot_at_last_new_line′?\?$")), "rewind", "the look-ahead is not rewound exactly when the line is complete")
        cl = E.when(r"^call VariablesState::complete_variable_observation$")
        q.same(PA, E, cl, B.AND(B.AND(css, done), outer), "batch", "the batch is not closed exactly when the line is complete")
        for t, v, f in E.sites(r"^call Story::add_error$"):
            if "continue_single_step" not in v:
                q.implies(PA, E, f, f"error:{v[:60]}", f"{v[:80]} is raised before the line is complete", cant)
        rep = E.lit(ASYNC[:-1] + "′$")
        for t, v, f in E.sites(r"^call (Story::reset_errors|Story::notify_variable_changed)$|^mut .*on_error|^mut .* error$|^set Story\.warnings_reported$"):
            if t.startswith("set") and v == "False":
                continue
            if "notify" in t:
                q.implies(PA, E, f, f"notify:{t}", "observers are told before the line is complete", done)
            else:
                q.implies(PA, E, f, f"report:{t}:{v[:40]}", "errors or warnings are reported while the continue is unfinished", B.NOT(rep) if rep else done)
        # nothing else of the story changes outside the steps
        for t, v, f in E.sites(r"^(set|mut) "):
            if re.match(r"^set Story\.(async_continue_active|recursive_continue_count|saw_lookahead_unsafe_function_after_new_line|warnings_reported)$", t) or "on_error" in t:
                continue
            q.implies(PA, E, f, f"touch:{t}", f"a slice changes {t} between steps", B.NOT(run), done)
        q.subset(PA, sorted({t for t, _, _ in E.sites(r"^call Story(State)?::|^call VariablesState::") if not SILENT.match(t)}),
                 ["call Story::add_error", "call Story::continue_single_step", "call Story::notify_variable_changed", "call Story::reset_errors", "call Story::restore_state_snapshot",
                  "call StoryState::reset_output", "call StoryState::reset_warnings", "call StoryState::set_did_safe_exit", "call VariablesState::complete_variable_observation", "call VariablesState::start_variable_observation"],
                 "calls", "a slice also runs")
        # the clock and the limit decide nothing but when to pause and the mark
        for t, d in E.ev.items():
            for v, f in d.items():
                if t == "set Story.async_continue_active" or t.startswith("while") or t == "loop":
                    continue
                lim = set(E.atoms(r"\bp2\b|Instant|elapsed|Duration"))
                sup = [n for n in B.support(f) if n in lim]
                X(IN, not sup, f"limit:{t}", f"whether {t} happens depends on the time limit ({sup})", E.at)
        # count
        up, dn = E.when(r"^set Story\.recursive_continue_count$", r"^\(1 Add p1\.recursive_continue_count\)$"), E.when(r"^set Story\.recursive_continue_count$", r"Sub 1\)$")
        q.same(CO, E, up, css, "up", "a continue that runs does not count itself")
        q.same(CO, E, dn, up, "down", "the nesting count does not come back down")
        X(CO, len(E.sites(r"^set Story\.recursive_continue_count$")) == 2, "twice", "the nesting count changes in other ways", E.at)
        X(CO, not E.can_follow(r"^set Story\.recursive_continue_count$", r"^never$"), "order", "", E.at)
        # the mark
        on = E.when(r"^set Story\.async_continue_active$", "^True$")
        off = E.when(r"^set Story\.async_continue_active$", "^False$")
        other = [v for _, v, _ in E.sites(r"^set Story\.async_continue_active$") if v not in ("True", "False", '("0.0" Lt p2)')]
        X(US, not other, "value", f"the unfinished mark is set to {other}", E.at)
        lt = E.when(r"^set Story\.async_continue_active$", r'^\("0\.0" Lt p2\)$')
        on = B.OR(on, B.AND(lt, limit))
        off = B.OR(off, B.AND(lt, B.NOT(limit)))
        q.same(US, E, on, B.AND(ok, limit), "set", "the unfinished mark is not set exactly by a time-limited continue that resumes nothing")
        q.implies(US, E, B.AND(B.AND(run, B.NOT(limit)), B.NOT(off)), "takeover", "a blocking continue does not take over an unfinished one")
        q.implies(US, E, B.AND(B.AND(B.AND(css, done), limit), B.NOT(off)), "cleared", "a completed line leaves the story marked unfinished")
        q.implies(US, E, B.AND(B.AND(off, limit), B.NOT(done)), "kept", "a pause loses the unfinished mark")

    # everything else is refused meanwhile
    n = 0
    for b in A.fns():
        nm = short(b.path)
        if not (re.match(r"^Story::\w+$", nm) and b.pub and b.nargs and b.local_ty(1).startswith("&mut ")) or nm in HOSTSIDE | DRIVERS:
            continue
        E = q.need(nm, GA)
        if not E:
            continue
        n += 1
        free = E.lit("!" + ASYNC)
        for t, v, f in E.sites(r"^(set|mut|call\*?|io)\b"):
            if not SILENT.match(t):
                q.implies(GA, E, f, f"{nm}:{t}", f"{t} happens in {nm} while a continue is unfinished", free)
        E2 = E.B
        q.implies(GA, E, E2.AND(E.lit(ASYNC), E2.NOT(E.when("^return$", r"^Err\("))), f"{nm}:err", f"{nm} does not refuse while a continue is unfinished") if E.lit(ASYNC) else X(GA, False, f"{nm}:gate", f"{nm} does not look at the unfinished mark", E.at)
    ctx.count("refused public methods", n, 14, GA)
    for nm in sorted(HOSTSIDE):
        E = q.need(nm, GA)
        if E:
            for t, v, f in E.sites(r"^(set|mut|call\*?|io)\b"):
                X(GA, re.match(r"^(set|mut) Story\.(on_error|allow_external_function_fallbacks)", t) is not None, f"{nm}:{t}", f"{nm} changes {t}", E.at)
    E = q.need("Story::if_async_we_cant", GA)
    if E:
        q.same(GA, E, E.when("^return$", r"^Err\("), E.lit(ASYNC), "refuse", "the refusal is not decided by the unfinished mark")

    E = q.need("Story::cont", LI)
    if E:
        B = E.B
        X(LI, E.when(r"^call Story::continue_async$", r'^p1, "?0(\.0)?"?$') == 1, "nolimit", "a blocking continue runs with a limit", E.at)
        q.implies(LI, E, E.when("^return$", "^Ok|get_current_text"), "text", "the line is returned although the continue failed", r"^Story::continue_async\(p1,.*\)\?$")
    E = q.need("Story::continue_async", LI)
    if E:
        X(LI, all(re.match(r"^p1, p2$", v) for _, v, _ in E.sites(r"^call Story::continue_internal$")) and E.sites(r"^call Story::continue_internal$"), "limit", "the limit is not passed on", E.at)
    for f in ("state_snapshot_at_last_new_line",):
        q.subset(IN, writers(A, rf"^(set|mut) Story\.{f}\b"), ["Story::continue_single_step", "Story::discard_snapshot", "Story::restore_state_snapshot", "Story::state_snapshot"], f"writer:{f}", "the look-ahead copy is also changed by")
    q.subset(IN, writers(A, r"^set Story\.saw_lookahead_unsafe_function_after_new_line$", "^True$"), ["Story::call_external_function"], "writer:saw", "the look-ahead stop is also set by")
