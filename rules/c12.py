"""C12: external functions: gating, arguments, result, fallback, validation, binding, dispatch."""
from eff import Eff, callers, writers

F = "Story::call_external_function"
BOUND = r"^p1\.externals\[p2\]\?$"
SAFE = r"^p1\.externals\[p2\]\.lookahead_safe$"
INSTR = r"^StoryState::in_string_evaluation\(p1\.state\)$"
SNAP = r"^p1\.state_snapshot_at_last_new_line\?$"


def check(ctx):
    A = ctx.world.A["bladeink"]
    X = ctx.expect
    G, AR, RS, FB, VA, RW, BI, DI, EM = "gate", "arguments", "result", "fallback", "validate", "rewind", "bind", "dispatch", "emit"
    ctx.rule(G, "the host function runs only when bound and, if not look-ahead safe, never inside a string nor past an undelivered newline; the refusal is an error and the deferral asks for a rewind without consuming the arguments; safe functions always run")
    ctx.rule(AR, "exactly the declared number of arguments is taken from the evaluation stack and handed over in source order")
    ctx.rule(RS, "one value is pushed for each call: the function's result, or void when it gives none")
    ctx.rule(FB, "an unbound external diverts into its Ink fallback exactly when fallbacks are allowed and it exists, else the call is an Err")
    ctx.rule(VA, "no content runs before the bindings were validated; validation visits all content and reports each unbound external without usable fallback")
    ctx.rule(RW, "the deferral flag rewinds to the line end outside strings, and is lowered at the start and completion of each continue")
    ctx.rule(BI, "binding stores the function and its flag unaltered, refuses duplicates without change; unbinding removes only a bound name")
    ctx.rule(DI, "external diverts call by their own name and argument count")
    ctx.rule(EM, "the compiler emits every argument in order and the argument count of an external call")

    def need(name, R, crate="bladeink"):
        e = Eff(ctx.world.A[crate], name)
        ctx.expect(R, e.ok, f"anchor:{name}", f"{name} not found")
        return e if e.ok else None
    E = need(F, G)
    if E:
        B = E.B
        run = E.when(r"^mut ExternalFunctionDef\.function call|^call ExternalFunction::call$")
        ref = E.when("^call Story::add_error$")
        dfr = E.when(r"^set Story\.saw_lookahead_unsafe_function_after_new_line$", "^True$")
        bnd, safe, ins, snap = (E.lit(x) for x in (BOUND, SAFE, INSTR, SNAP))
        unsafe = B.NOT(safe)
        at = E.at
        X(G, E.sat(run), "runs", "the host function is never called", at)
        X(G, E.implies(run, bnd), "bound", f"called while not bound when {E.witness(B.AND(run, B.NOT(bnd)))}", at)
        bad = B.AND(run, B.AND(unsafe, B.OR(ins, snap)))
        X(G, not E.sat(bad), "unsafe-runs", f"a look-ahead-unsafe function runs when {E.witness(bad)}", at)
        X(G, not E.sat(B.AND(B.OR(ref, dfr), safe)), "safe-refused", "a look-ahead-safe function is refused or deferred", at)
        X(G, not E.sat(B.AND(B.AND(bnd, B.AND(unsafe, ins)), B.NOT(ref))), "refusal", "an unsafe call inside a string is not reported as an error", at)
        X(G, all(v.rstrip().endswith("False") for t, v, f in E.sites("^call Story::add_error$")), "refusal-kind", "the refusal is only a warning", at)
        X(G, not E.sat(B.AND(B.AND(bnd, B.AND(unsafe, B.AND(snap, B.NOT(ins)))), B.NOT(dfr))), "deferral", "an unsafe call past a newline does not ask for the rewind", at)
        X(G, E.implies(dfr, bnd) and E.implies(dfr, snap), "deferral-only", "a rewind is asked for with nothing to rewind to", at)
        pops = E.when(r"^call StoryState::pop_evaluation_stack")
        stop = B.OR(ref, dfr)
        X(G, not E.sat(B.AND(pops, stop)), "refused-pops", "a refused or deferred call consumes its arguments", at)
        notval = E.lit(r"!^dc<Value>\(StoryState::pop_evaluation_stack")
        miss = B.AND(bnd, B.AND(B.OR(safe, B.AND(B.NOT(ins), B.NOT(snap))), B.NOT(run)))
        X(G, E.implies(miss, notval), "completeness", f"an executed call is skipped when {E.witness(miss)}", at)
        # arguments
        loops = E.sites("^loop$")
        bag = set(E.S["bag"])
        X(AR, any(v in ("p3", "Range{start:0, end:p3}") for t, v, f in loops) or any("p3" in n for n in E.meta) or "fn StoryState::pop_evaluation_stack_multiple" in bag, "count", f"the number of arguments taken is not the declared one ({[v for t, v, f in loops]})", at)
        rev = [w for w in ("reverse", "rev", "insert", "push_front") if any(w == x or x.endswith("::" + w) for y in bag for x in [y.removeprefix("fn ")]) or any(t.split()[-1] == w for t in E.ev)]
        X(AR, len(rev) == 1, "order", f"popped arguments are not put back in source order ({rev})", at)
        X(AR, any("p2" in v.split(",")[0] for t, v, f in E.sites(r"ExternalFunctionDef\.function call|^call ExternalFunction::call$")), "name", "the function is not called under its own name", at)
        X(AR, any(".value" in v for t, v, f in E.sites(r"^local (push|insert|push_front)")) or "fn StoryState::pop_evaluation_stack_multiple" in bag, "values", "arguments are not the popped values", at)
        # result
        ps = E.sites("^call StoryState::push_evaluation_stack$")
        val = [f for t, v, f in ps if "Value{" in v and "ExternalFunction::call(" in v]
        void = [f for t, v, f in ps if "Void{" in v]
        some = E.lit(r"^ExternalFunction::call\(.*\?$")
        X(RS, len(val) == 1 and len(void) == 1 and len(ps) == 2, "kinds", f"pushed values: {[v[:80] for t, v, f in ps]}", at)
        if val and void:
            X(RS, E.implies(val[0], some) and not E.sat(B.AND(void[0], some)), "which", "a returned value is replaced by void or the reverse", at)
            X(RS, not E.sat(B.AND(B.AND(run, B.NOT(B.OR(val[0], void[0]))), B.NOT(notval))), "always", "a call can end without a result on the stack", at)
        X(RS, "call StoryState::push_evaluation_stack" not in E.S["repeat"], "once", "two results can be pushed", at)
        # fallback
        fb = E.when("^call StoryState::set_diverted_pointer$")
        pu = E.when("^call CallStack::push$", "^.*PushPopType::Function")
        allow = E.lit(r"^p1\.allow_external_function_fallbacks$")
        knot = E.lit(r"named_content\[p2\]\?$|knot_container_with_name\(.*\?$")
        er = E.when("^return$", r"^Err\(InvalidStoryState\)")
        # out of call stack is an Err instead
        want = B.AND(B.AND(B.NOT(bnd), B.AND(allow, knot)), B.NOT(er))
        for nm, f in (("divert", fb), ("frame", pu)):
            d = B.AND(B.XOR(f, want), E.K)
            X(FB, not d, nm, f"fallback {nm} happens under the wrong condition: {E.witness(d)}", at)
        X(FB, all("index:0" in v or "start_of" in v for t, v, f in E.sites("^call StoryState::set_diverted_pointer$")), "start", "the fallback is not entered at its start", at)
        X(FB, all("output_stream" in v for t, v, f in E.sites("^call CallStack::push$")), "trim", "the fallback frame does not record where its output starts", at)
        un = B.AND(B.NOT(bnd), B.NOT(B.AND(allow, knot)))
        X(FB, not E.sat(B.AND(un, B.NOT(er))), "error", "an unbound external without fallback is not an Err", at)
    # validation
    E = need("Story::continue_async", VA)
    if E:
        c = E.when("^call Story::continue_internal$")
        X(VA, E.sat(c) and E.implies(c, r"has_validated_externals$", r"validate_external_bindings\(p1\)\?$"), "before", "content can run before the bindings are validated", E.at)
    for nm in ("Story::cont", "Story::continue_maximally"):
        e = need(nm, VA)
        if e:
            X(VA, e.ev.keys() & {"call Story::continue_async", "call Story::cont"} and "call Story::continue_internal" not in e.ev, f"through:{nm}", f"{nm} bypasses the validation", e.at)
    cl = callers(A, "Story::continue_internal")
    X(VA, cl and set(cl) <= {"Story::continue_async", "Story::reset_globals"}, "only-way", f"the step loop is also entered from {cl}", None)
    E = need("Story::validate_external_bindings", VA)
    if E:
        ok = E.when(r"^set Story\.has_validated_externals$", "^True$")
        X(VA, E.sat(ok) and E.implies(ok, r"^empty\(") and E.implies(ok, r"validate_external_bindings_container\(.*\?$"), "recorded", "bindings count as valid although some are missing", E.at)
        er = E.when("^return$", r"^Err")
        X(VA, E.sat(er), "reported", "missing bindings are not an Err", E.at)
    E = need("Story::validate_external_bindings_container", VA)
    if E:
        rec = E.sites("^call Story::validate_external_bindings_container$")
        X(VA, any("named_content" in v for t, v, f in rec), "named", "named content is not searched for externals", E.at)
        X(VA, any("p2.content" in v for t, v, f in rec), "content", "nested containers are not searched for externals", E.at)
        o = E.when("^call Story::validate_external_bindings_rtobject$")
        notc = E.lit(r"!^dc<Container>\(each\(p2\.content\)\)\?$")
        X(VA, E.sat(o) and not E.sat(E.B.AND(notc, E.B.NOT(o))), "objects", "some content objects are not examined", E.at)
        nm = E.when("^call Story::validate_external_bindings_container$", r"named_content")
        X(VA, not E.sat(E.B.NOT(nm)), "named-all", "named content is searched only sometimes", E.at)
    E = need("Story::validate_external_bindings_rtobject", VA)
    if E:
        ins = E.when(r"^mut p3 insert$|^call .*insert$")
        ext = E.lit(r"is_external$")
        b = E.lit(r"^p1\.externals\[")
        al = E.lit(r"^p1\.allow_external_function_fallbacks$")
        fbk = E.lit(r"named_content.*\]\?$|knot_container_with_name")
        X(VA, E.sat(ins) and E.implies(ins, ext), "external-only", "ordinary diverts are reported as unbound", E.at)
        want = E.B.AND(ext, E.B.AND(E.B.NOT(b), E.B.NOT(E.B.AND(al, fbk))))
        dv = E.lit(r"^dc<Divert>\(p2\)\?$")
        d = E.B.AND(E.B.XOR(ins, E.B.AND(want, dv)), E.K)
        X(VA, not d, "exact", f"an external is (or is not) reported missing wrongly when {E.witness(d)}", E.at)
    # rewind
    E = need("Story::continue_single_step", RW)
    if E:
        r = E.when("^call Story::restore_state_snapshot$")
        fl = E.lit(r"saw_lookahead_unsafe_function_after_new_line$")
        sn = E.lit(SNAP)
        inst = E.lit(INSTR)
        stepok = E.lit(r"^Story::step\(p1\)\?$")
        fol = E.B.NOT(E.lit(r"!^Story::try_follow_default_invisible_choice\(p1\)\?$"))
        X(RW, not E.sat(E.B.AND(E.B.AND(fl, E.B.AND(sn, E.B.AND(E.B.NOT(inst), E.B.AND(stepok, fol)))), E.B.NOT(r))), "restores", "a deferred call does not rewind to the line end", E.at)
        X(RW, E.implies(r, sn) and not E.sat(E.B.AND(r, inst)), "only", "the state is rewound without a line end or inside a string", E.at)
        X(RW, not E.sat(E.B.AND(r, E.B.NOT(E.when("^return$", "^True$")))), "ends", "after the rewind the line is not over", E.at)
        d = E.when(r"^set Story\.state_snapshot_at_last_new_line$", "^None$")
        X(RW, not E.sat(E.B.AND(d, fl)), "keep", "the rewind point is dropped although an unsafe call waits for it", E.at)
    E = need("Story::continue_internal", RW)
    if E:
        off = E.when(r"^set Story\.saw_lookahead_unsafe_function_after_new_line$", "^False$")
        st = E.when(r"^call Story::continue_single_step$")
        X(RW, E.sat(off) and not E.sat(E.B.AND(st, E.B.NOT(off))), "lowered", "the deferral flag of an earlier line survives into the next", E.at)
        ok = any(E.s.fol[x] & set(E.s.sites[y]) for x in E.s.sites for y in E.s.sites if x == "set Story.saw_lookahead_unsafe_function_after_new_line" and y == "call Story::continue_single_step")
        X(RW, ok, "lowered-before", "the flag is not lowered before stepping", E.at)
    wr = writers(A, r"^set Story\.saw_lookahead_unsafe_function_after_new_line$", "^True$")
    X(RW, wr == [F], "raised", f"the deferral flag is raised by {wr}", None)
    # binding
    E = need("Story::bind_external_function", BI)
    if E:
        i = E.sites(r"^mut Story\.externals insert$")
        f = E.when(r"^mut Story\.externals insert$")
        X(BI, len(i) == 1 and "p2," in i[0][1] and "function:p3" in i[0][1] and "lookahead_safe:p4" in i[0][1], "stored", f"stored as {[v for t, v, q in i]}", E.at)
        X(BI, E.excludes(f, r"^p1\.externals\[p2\]\?$"), "duplicate", "a second binding replaces the first", E.at)
        X(BI, not E.sat(E.B.AND(E.lit(r"^p1\.externals\[p2\]\?$"), E.B.NOT(E.when("^return$", "^Err")))), "duplicate-err", "a duplicate binding is not refused", E.at)
    E = need("Story::unbind_external_function", BI)
    if E:
        f = E.when(r"^mut Story\.externals remove$")
        X(BI, E.sat(f), "removed", "unbinding removes nothing", E.at)
        X(BI, not E.sat(E.B.AND(E.lit(r"!^p1\.externals\[p2\]\?$"), E.B.NOT(E.when("^return$", "^Err")))), "unbind-err", "unbinding an unknown name is not refused", E.at)
    E = need("Story::set_allow_external_function_fallbacks", BI)
    if E:
        on, off = (E.when(r"^set Story\.allow_external_function_fallbacks$", f"^{w}$") for w in ("True", "False"))
        raw = E.when(r"^set Story\.allow_external_function_fallbacks$", "^p2$")
        p2 = E.lit("^p2$")
        X(BI, raw == 1 or (on == p2 and off == E.B.NOT(p2)), "fallbacks", "the fallback switch does not take the given value", E.at)
    # dispatch
    E = need("Story::perform_logic_and_flow_control", DI)
    if E:
        s = E.sites("^call Story::call_external_function$")
        X(DI, len(s) == 1 and "get_target_path_string" in s[0][1] and s[0][1].endswith(".external_args"), "args", f"called as {[v for t, v, f in s]}", E.at)
        f = E.when("^call Story::call_external_function$")
        X(DI, E.implies(f, r"is_external$") and E.excludes(f, r"variable_divert_name\?$"), "external", "ordinary diverts reach the host", E.at)
        X(DI, E.excludes(E.B.AND(f, E.lit("is_conditional$")), r"!^Story::is_truthy\(.*\)$"), "conditional", "a conditional external call ignores its condition", E.at)
    # compiler
    for fn in ("emitter::emit_expression_ctx", "emitter::emit_nodes_with_continuation"):
        E = need(fn, EM, "bladeink_compiler")
        if not E:
            continue
        bag = set(E.S["bag"])
        X(EM, {'"x()"', '"exArgs"'} <= bag, f"keys:{fn}", "external calls are not emitted with x() and exArgs", E.at)
        args = [v for t, v, f in E.sites(r"^call emitter::emit_call_argument$")]
        X(EM, args and all("args" in v for v in args), f"args:{fn}", f"call arguments are emitted from {args}", E.at)
        rv = [v for t, v, f in E.sites(r"^loop$") if "rev" in v and "args" in v]
        X(EM, not rv and not any(".skip(" in v or "Iterator::skip" in v for v in args), f"order:{fn}", "call arguments are emitted in another order", E.at)

