"""C13: every runtime error and warning is delivered exactly once."""
from facet import View, gany, is_err, is_err_only, is_ok, tokens, opened, outer_field
from paths import touching, variant
from guards import fields, calls
from terms import walk, show
from lib import short

L = {"Error": "StoryState.current_errors", "Warning": "StoryState.current_warnings"}


def pol_field(v, adt):
    return v


def check(ctx):
    A = ctx.world.A["bladeink"]
    R1, R2, R3, R4, R5, R6 = "deliver", "clear", "no-handler", "stop", "collect", "tool"
    ctx.rule(R1, "with a handler, every pending error and warning goes to it with its own type, in order, only when the line is complete")
    ctx.rule(R2, "after a list is handed to the handler it is emptied before the continue returns; warnings left readable are dropped before the next line starts; nothing else empties the lists")
    ctx.rule(R3, "without a handler an error makes the continue return Err and warnings alone never do")
    ctx.rule(R4, "an error ends the story: no further content until reset or redirect")
    ctx.rule(R5, "every fault met while stepping is recorded once, in the list of its kind, and the lists survive state copies")
    ctx.rule(R6, "the command-line tool's handler files each message under its own kind")
    cont = A.fn("Story::continue_internal")
    if not ctx.expect(R1, cont, "anchor:continue_internal", "Story::continue_internal not found"):
        return
    small = touching(A, list(L.values()), depth=2, maxb=25)
    want = lambda b: small(b) and short(b.path) not in ("Story::continue_single_step", "Story::can_continue", "StoryState::can_continue", "Story::add_error", "StoryState::add_error")
    v = View(A, cont, want, "c13")
    steps = v.calls("Story::continue_single_step")
    ctx.count("single step sites", len(steps), 1, R5)
    dl = v.calls("ErrorHandler::error", "error")
    dl = [s for s in dl if s.nargs() == 3]
    ctx.count("handler call sites", len(dl), 1, R1)
    for ty, f in L.items():
        mine = [s for s in dl if any(f in fields(u) for u in opened(s.arg(1)))]
        if not ctx.expect(R1, mine, f"{ty}:delivered", f"pending {f} are never handed to the error handler"):
            continue
        for s in mine:
            t = s.arg(2)
            # the kind given: a constant of the right variant, or chosen together with the list
            k = [x[3] for x in walk(t) if x[0] == "agg" and x[2].endswith("ErrorType")]
            ctx.expect(R1, k == [ty] or (len(k) == 2 and t[0] == "phi"), f"{ty}:kind", f"{f} are reported as {k or show(t)}", s.at)
            ctx.expect(R1, s.has("is on_error Some"), f"{ty}:handler-guard", "the handler is called without one being set", s.at)
            bad = [c for c in calls(s.arg(1)) if c.split("::")[-1] in ("skip", "take", "filter", "step_by", "first", "last", "rev", "take_while", "skip_while")]
            ctx.expect(R1, not bad, f"{ty}:all", f"only part of {f} is delivered ({bad})", s.at)
            # delivered whenever present: nothing but emptiness, handler and completion decides
            other = []
            for a in s.guards:
                toks = tokens_of(a)
                if toks & {f, "on_error", "next", "async_continue_active", "continue_single_step", "can_continue", "recursive_continue_count"} or toks & set(L.values()) or "$millisecs_limit_async" in toks or "elapsed" in toks:
                    # the other list's emptiness may only matter in a disjunction
                    of = [x for x in L.values() if x != f][0]
                    if "empty" in toks and of in toks and f not in toks and a[0] is not None:
                        other.append(a)
                    continue
                if a[0] is not None:
                    other.append(a)
            ctx.expect(R1, not other, f"{ty}:cond", f"delivery of {f} also depends on {[show_a(a) for a in other]}", s.at)
            # not inside a paused slice: every path from the step loop to the delivery sees the line complete
        clr = v.resets(f)
        drained = [s for s in mine if any(c in ("Vec::drain", "mem::take", "mem::replace") for c in calls(s.arg(1)))]
        for s in mine:
            if s in drained:
                ctx.ok(R2, f"{ty} drained while delivered")
                continue
            p = v.path(v.after([s]), clr, ret=lambda x: True)
            ctx.expect(R2, p is None, f"{ty}:cleared", f"{f} handed to the handler can still be pending when the continue returns (lines {p})", s.at)
        # who empties: in a continue only after delivery, or (warnings) on the fresh start of a line
        for c in clr:
            if f == L["Error"]:
                # without a handler errors stay readable: clearing is reached only with a handler
                ctx.expect(R2, c.has("is on_error Some") or c.has(f"empty {f}"), f"{ty}:kept", "errors are dropped without being delivered to a handler or returned", c.at)
            else:
                fresh = v.path(v.after([c]), [], steps) is not None
                if fresh:
                    ctx.ok(R2, "warnings dropped before a fresh line")
                else:
                    ctx.expect(R2, c.has("is on_error Some"), f"{ty}:kept", "warnings are dropped without a handler although the host has not had the chance to read them", c.at)
    # delivery needs a completed line
    fin = v.stores("Story.async_continue_active")
    offs = [s for s in fin if s.val == ("const", "bool", False)]
    ctx.count("stores ending a sliced continue", len(offs), 1, R1)

    def active(b, x):
        # assume the slice is still unfinished
        return not any(a[0] is False and a[1] == "true" and "Story.async_continue_active" in fields(a[2]) for a in A.G.edge(v.ib, b, x))
    for s in dl:
        p = v.path(v.after(steps), offs, [s], edge=active)
        ctx.expect(R1, p is None, "complete", "messages are delivered while a sliced continue is paused, although that work may be rewound and repeated", s.at)
    # warnings: before the steps of a fresh line the earlier ones are dropped
    wclr = [c for c in v.resets(L["Warning"]) if v.path(v.after([c]), [], steps) is not None]
    if ctx.expect(R2, wclr, "Warning:fresh", "warnings left readable by one continue are never dropped, so a later continue reports them again"):
        for c in wclr:
            ctx.expect(R2, not c.any("on_error"), "Warning:fresh-cond", "whether old warnings are dropped depends on the handler", c.at)
    # ---- no handler ----
    errs = [s for s in v.ret_aggs("Err")]
    none_errs = [s for s in errs if s.has("!is on_error Some")]
    ctx.expect(R3, none_errs, "err-returned", "without a handler an error does not make the continue return Err")
    for s in none_errs:
        ctx.expect(R3, any(a[1] == "empty" and a[0] is False and L["Error"] in fields(a[2]) for a in s.guards), "err-needs-error", "without a handler Err is returned although there is no error (warnings alone)", s.at)
        ctx.expect(R3, not any(a[1] == "empty" and a[0] is not None and L["Warning"] in fields(a[2]) for a in s.guards), "err-ignores-warnings", "whether an error is returned depends on warnings", s.at)
        msg = s.val
        ctx.expect(R3, "current_errors" in texts(A, v, s), "err-text", "the Err returned does not carry the error's text", s.at)
    # an error never leads to Ok without a handler: cut the Err site, nothing reaches Ok under errors non-empty + no handler
    # ---- stop ----
    cc = A.fn("StoryState::can_continue")
    if ctx.expect(R4, cc, "anchor:can_continue", "StoryState::can_continue not found"):
        vv = View(A, cc, lambda b: touching(A, [L["Error"]], 1, 6)(b), "c13")
        true_needs_noerr(ctx, R4, A, vv)
    ae = A.fn("Story::add_error")
    if ctx.expect(R4, ae, "anchor:add_error", "Story::add_error not found"):
        va = View(A, ae, lambda b: short(b.path) in ("StoryState::add_error", "Story::get_state_mut", "StoryState::force_end"), "c13")
        fe = va.calls("CallStack::reset")
        nul = [s for s in va.calls("StoryState::set_current_pointer")] + va.stores("Element.current_pointer")
        for nm, sites in (("callstack", fe), ("pointer", nul)):
            hit = [s for s in sites if s.has("!$is_warning") or s.has("!true $is_warning")]
            ctx.expect(R4, hit, f"end:{nm}", f"raising an error does not end the story ({nm} kept)", f"{ae.file}:{ae.line}")
            ctx.expect(R4, not [s for s in sites if not s.any("!$is_warning")], f"warn-end:{nm}", "a warning ends the story", f"{ae.file}:{ae.line}")
        ch = va.muts("Flow.current_choices", "Vec::clear", "Vec::truncate") + va.resets("Flow.current_choices")
        ctx.expect(R4, [s for s in ch if s.any("!$is_warning")], "end:choices", "choices stay on offer after an error", f"{ae.file}:{ae.line}")
        pe = va.muts(L["Error"], "Vec::push")
        pw = va.muts(L["Warning"], "Vec::push")
        for nm, f, sites, pol in (("error", L["Error"], pe, "!$is_warning"), ("warning", L["Warning"], pw, "$is_warning")):
            cs = [g for s in sites for t, g in s.cases(0) if outer_field(t) == f]
            ctx.expect(R5, cs and all(gany(g, pol) for g in cs), f"push:{nm}", f"{nm}s are not filed as {nm}s", f"{ae.file}:{ae.line}")
        for s in pe + pw:
            ctx.expect(R5, all("$message" in tokens(t) for t, g in s.cases(1)), "push:text", "the recorded text leaves out the message", s.at)
        # exactly once: a push is never followed by another push
        for s in pe + pw:
            ctx.expect(R5, va.path(va.after([s]), [], pe + pw) is None, "push:once", "one message can be recorded twice", s.at)
        miss = va.path(va.entry(), pe + pw, ret=lambda x: True)
        ctx.expect(R5, miss is None, "push:always", f"a message can be dropped (lines {miss})", f"{ae.file}:{ae.line}")
    # ---- collect ----
    adds = v.calls("Story::add_error")
    ctx.count("add_error sites in continue", len(adds), 1, R5)
    for s in steps:
        t = v.ib.blocks[s.blk]["t"]
        # from the step's Err, an add_error with its message comes before anything else happens
        ea = [a for a in adds if "continue_single_step" in a.toks(1)]
        if ctx.expect(R5, ea, "step-error", "an Err of a step is not recorded as an error"):
            for a in ea:
                ctx.expect(R5, a.toks(2) == {"False"} or "False" in a.toks(2), "step-error-kind", "an Err of a step is recorded as a warning", a.at)
                again = v.path(v.after([a]), [], steps)
                ctx.expect(R5, again is None, "step-error-stop", f"stepping goes on after an error (lines {again})", a.at)
            # Err edge cannot bypass the recording
            from guards import atxt
            errb = err_edges(v, s)
            for b in errb:
                esc = v.path([b], ea, ret=lambda x: True)
                ctx.expect(R5, esc is None, "step-error-dropped", f"an Err of a step can be dropped (lines {esc})", s.at)
    # other calls in the crate: kinds
    nw = ne = 0
    for b in A.fns():
        if "{closure" in b.path:
            pass
        for blk, t in b.calls():
            if "ind" in t[1]:
                continue
            from terms import cname
            if cname(t[1])[1] == "Story::add_error":
                k = A.T.arg(b, blk, 2)
                if k[0] == "const":
                    if k[2]:
                        nw += 1
                    else:
                        ne += 1
                txt = A.T.arg(b, blk, 1)
                tx = " ".join(str(x[2]) for x in walk(txt) if x[0] == "const" and isinstance(x[2], str))
                if any(x in tx for x in ("Using default value", "Non-critical", "Failed to find container for")):
                    ctx.expect(R5, k[0] == "const" and k[2] is True, f"kind:{short(b.path)}:warning", "a non-critical fault is raised as an error", f"{b.file}:{t[5]}")
                elif k[0] == "const":
                    ctx.expect(R5, k[2] is False, f"kind:{short(b.path)}:{tx[:30]}", "a critical fault is raised as a warning", f"{b.file}:{t[5]}")
    ctx.count("error raising sites", ne, 2, R5)
    ctx.count("warning raising sites", nw, 1, R5)
    # copies
    cp = A.fn("StoryState::copy_and_start_patching")
    if ctx.expect(R5, cp, "anchor:copy", "StoryState::copy_and_start_patching not found"):
        vc = View(A, cp, touching(A, list(L.values()), 1, 8), "c13c")
        for ty, f in L.items():
            st = [s for s in vc.stores(f) if f in fields(s.val)]
            ag = [s for s in vc.aggs("StoryState") if f in fields(dict(s.val[4]).get(f.split(".")[1], ("?",)))]
            ex = [s for s in vc.calls("Vec::extend", "Vec::extend_from_slice", "Vec::append", "Clone::clone_from") if f in {x for x in fields(s.arg(0))} and f in fields(s.arg(1))]
            ctx.expect(R5, st or ag or ex, f"copy:{ty}", f"{f} are lost when the state is snapshotted", f"{cp.file}:{cp.line}")
            for s in st + ex:
                bad = [a for a in s.guards if a[0] is not None and not (f in tokens_of(a) and "empty" in tokens_of(a) and a[0] is False)]
                ctx.expect(R5, not bad, f"copy-cond:{ty}", f"{f} are copied only under {[show_a(a) for a in bad]}", s.at)
    # accessors
    for nm, f in (("Story::get_current_errors", L["Error"]), ("Story::get_current_warnings", L["Warning"])):
        b = A.fn(nm)
        if ctx.expect(R3, b, f"anchor:{nm}", f"{nm} not found"):
            r = A.T.ret(A.I.get(b, lambda x: True, "all"))
            ctx.expect(R3, outer_field(r) == f, f"read:{nm}", f"{nm} returns {show(r)}", f"{b.file}:{b.line}")
    for nm, f in (("Story::has_error", L["Error"]), ("StoryState::has_warning", L["Warning"]), ("StoryState::has_error", L["Error"])):
        b = A.fn(nm)
        if b:
            from guards import norm_bool
            r = A.T.ret(A.I.get(b, lambda x: True, "all"))
            at = norm_bool(r, True)
            ok = len(at) == 1 and "empty" in tokens_of(at[0]) and f in tokens_of(at[0]) and npol(at[0]) is False
            ctx.expect(R3, ok, f"has:{nm}", f"{nm} is {show(r)}", f"{b.file}:{b.line}")
    # ---- tool ----
    C = ctx.world.A["rinklecate"]
    hs = [b for b in C.fns() if b.path.endswith("::error") and "ErrorHandler" in b.path]
    if ctx.expect(R6, hs, "anchor:tool-handler", "the tool has no ErrorHandler"):
        for b in hs:
            vt = View(C, b, None, "c13")
            for ty, f in (("Error", "StoryErrors.errors"), ("Warning", "StoryErrors.warnings")):
                ps = vt.muts(f, "Vec::push")
                oth = "Warning" if ty == "Error" else "Error"
                ok = ps and all("$message" in tokens(s.arg(1)) for s in ps) and all(
                    s.has(f"is {ty}") or s.has(f"!is {oth}") or s.has(f"eq {ty}") or s.has(f"!eq {oth}") for s in ps)
                ctx.expect(R6, ok, f"file:{ty}", f"{ty} messages are not filed under {f}", f"{b.file}:{b.line}")


def npol(a):
    from facet import atokens
    return atokens(a)[0]


def tokens_of(a):
    from facet import atokens
    return atokens(a)[1]


def show_a(a):
    from guards import atxt
    return atxt(a)[:120]


def err_edges(v, s):
    """entry blocks of the Err arms of switches on the result of call site s"""
    out = []
    for b in v.ib.reach:
        t = v.ib.blocks[b]["t"]
        if t[0] != "switch":
            continue
        for x in set(v.ib.succs[b]):
            for a in v.A.G.edge(v.ib, b, x):
                if a[1] == "is" and a[2][0] == "call" and len(a[2]) > 3 and a[2][3] == (v.ib.path, s.blk) and (a[0] is False and a[3] == "Ok" or a[0] is True and a[3] == "Err"):
                    out.append(x)
    return out


def deep_tokens(A, v, t):
    return tokens(t)


def texts(A, v, s):
    """tokens of a value and of everything appended to the strings it is made of"""
    from strshape import Shaper
    S = Shaper(A, v.ib, lambda n: False)
    ms = S.mutations(v.ib)
    out = set()
    seen = set()
    st = [s.val]
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        out |= tokens(t)
        for x in walk(t):
            if x in ms and x not in seen:
                seen.add(x)
                for (_, blk, nm, a) in ms[x]:
                    st.append(a)
    return out


def true_needs_noerr(ctx, R, A, vv):
    """can_continue is true only with no error and a non-null pointer"""
    from eff import Eff
    E = Eff(A, "StoryState::can_continue")
    if not ctx.expect(R, E.ok, "can_continue:read", "StoryState::can_continue could not be analysed"):
        return
    tr = E.when("^return$", r"^(?!False$)")
    opaque = [v for t, v, f in E.sites("^return$") if v not in ("True", "False") and f]
    ctx.expect(R, E.sat(tr), "can_continue:alts", "can_continue has no true result")
    ctx.expect(R, E.implies(tr, r"^empty\(p1\.current_errors\)$", r"!has_error") or any("current_errors" in v for v in opaque), "can_continue:error", "the story can continue after an error", E.at)
    ctx.expect(R, E.implies(tr, r"current_pointer.*container\?$", r"!is_null") or any("current_pointer" in v for v in opaque), "can_continue:pointer", "the story can continue with no content left", E.at)
