"""C11: variable observers: batching pairs up, every change is recorded, delivery after the work with the final value, registration."""
import re
from common import Q
from eff import callers, contract, fields_of, writers

CI = "Story::continue_internal"
ASYNC = r"^p1\.async_continue_active$"
OUTER = r"^p1\.recursive_continue_count == 1$"


def check(ctx):
    q = Q(ctx)
    A, X = q.A, ctx.expect
    BA, RC, FI, DE, HO, OB, RM, CP = "batch", "record", "final", "deliver", "host", "observe", "remove", "lookahead"
    ctx.rule(BA, "the outermost continue opens one batch when it starts and closes it exactly when it completes; nothing else opens or closes one")
    ctx.rule(RC, "every assignment to a global goes through one place that stores the value and, inside a batch, records the name whenever it changed")
    ctx.rule(FI, "closing a batch yields each recorded name once with the value it then has, and ends batching")
    ctx.rule(DE, "all collected changes are handed to the observers after the continue's work, and each observer of a name is called once")
    ctx.rule(HO, "a host assignment notifies immediately, once, after the value was stored, exactly when it changed something outside a batch")
    ctx.rule(OB, "observing registers the observer under the declared name after those already there")
    ctx.rule(RM, "removing takes away exactly the observers that are the one given, from the name given or everywhere, and never panics")
    ctx.rule(CP, "the copy of the state made for look-ahead carries the batch, so that a rewind forgets the changes it discards")

    E = q.need(CI, BA)
    if E:
        B = E.B
        outer = E.lit(r"recursive_continue_count′? == 1$")
        X(BA, outer != 0, "outermost", "the nesting count is not looked at", E.at)
        st = E.when(r"^call VariablesState::start_variable_observation$")
        up = E.when(r"^set Story\.recursive_continue_count$", "Add")
        first = B.AND(up, E.lit("!" + ASYNC))
        q.same(BA, E, st, B.AND(first, outer), "opened", "a batch is not opened exactly by the start of an outermost continue")
        co = E.when(r"^call VariablesState::complete_variable_observation$")
        q.implies(BA, E, co, "closed-outer", "an inner continue closes the batch", outer)
        # completion = where the unfinished flag is settled for good
        q.implies(BA, E, co, "closed-after", "a batch is closed although no continue ran", up)
        fin = E.when(r"^call StoryState::set_did_safe_exit$|^set StoryState\.did_safe_exit$", "False$")
        ends = B.AND(up, E.lit(r"^Story::continue_single_step\(p1\)$"))
        q.implies(BA, E, B.AND(B.AND(ends, outer), B.NOT(co)), "closed", "a completed line leaves the batch open", r"!^Story::continue_single_step\(p1\)\?$")
        still = B.AND(B.AND(up, outer), B.NOT(co))
        cont = B.AND(E.lit(r"current_pointer\.container′\?$"), 1)
        q.implies(BA, E, still, "closed-end", "a continue that cannot go on leaves the batch open", cont)
        X(BA, not E.can_follow(r"^call VariablesState::complete_variable_observation$", r"^call (Story::(continue_single_step|restore_state_snapshot)|VariablesState::start_variable_observation)$"), "closed-last", "work is done after the batch was closed", E.at)
        X(BA, not E.can_follow(r"^call Story::continue_single_step$", r"^call VariablesState::start_variable_observation$"), "opened-first", "the batch is opened after work was done", E.at)
        no = E.sites(r"^call Story::notify_variable_changed$")
        X(DE, len(no) == 1, "sites", f"changes are delivered at {len(no)} places", E.at)
        nf = E.when(r"^call Story::notify_variable_changed$")
        q.implies(DE, E, B.AND(co, B.NOT(nf)), "delivered", "collected changes are not delivered")
        q.implies(DE, E, nf, "collected", "changes are delivered that were not collected", co)
        for t, v, f in no:
            X(DE, re.fullmatch(r"p1, each\((.*)\)\.0, each\(\1\)\.1", v) is not None and "complete_variable_observation" in v, "pair", f"an observer is told {v[:140]}", E.at)
        X(DE, any(v == "VariablesState::complete_variable_observation(p1.state.variables_state)" for _, v, _ in E.sites("^loop$")), "all", "not every collected change is delivered", E.at)
        for after in (r"^call Story::(continue_single_step|restore_state_snapshot|reset_errors|add_error)$", r"^(set|mut) Story(State)?\."):
            X(DE, not E.can_follow(r"^call Story::notify_variable_changed$", after), f"last:{after[1:20]}", "observers are called before the continue's work is done", E.at)
    q.subset(BA, callers(A, "VariablesState::start_variable_observation"), [CI], "opener", "a batch is also opened by")
    q.subset(BA, callers(A, "VariablesState::complete_variable_observation"), [CI], "closer", "a batch is also closed by")
    q.subset(DE, callers(A, "Story::notify_variable_changed"), [CI, "Story::set_variable"], "notifier", "observers are also called by")
    E = q.need("VariablesState::start_variable_observation", BA)
    if E:
        X(BA, E.when(r"^set VariablesState\.batch_observing_variable_changes$", "^True$") == 1, "start-flag", "opening a batch does not start recording", E.at)
        X(BA, E.when(r"^set VariablesState\.changed_variables_for_batch_obs$", r"(HashSet|BTreeSet|Vec|IndexSet)::(new|with_capacity|default)\(|^default") == 1, "start-empty", "a batch does not start empty", E.at)
    for x, ws in (("batch_observing_variable_changes", ["VariablesState::complete_variable_observation", "VariablesState::start_variable_observation"]),
                  ("changed_variables_for_batch_obs", ["VariablesState::apply_patch", "VariablesState::complete_variable_observation", "VariablesState::set_global", "VariablesState::start_variable_observation"])):
        q.subset(BA, writers(A, rf"^(set|mut) VariablesState\.{x}\b"), ws, f"writer:{x}", f"{x} is also changed by")

    # recording
    q.subset(RC, writers(A, r"^(set|mut) VariablesState\.global_variables\b"), ["VariablesState::apply_patch", "VariablesState::load_json", "VariablesState::set_global"], "writer:globals", "globals are also assigned by")
    q.subset(RC, callers(A, "VariablesState::set_global"), ["VariablesState::assign", "VariablesState::set"], "caller:set_global", "globals are also assigned by")
    q.subset(RC, writers(A, r"^mut StatePatch\.globals\b|^set StatePatch\.globals$"), ["StatePatch::set_global"], "writer:patch", "patched globals are also assigned by")
    q.subset(RC, callers(A, "StatePatch::set_global"), ["VariablesState::set_global"], "caller:patch", "patched globals are also assigned by")
    E = q.need("VariablesState::set_global", RC)
    if E:
        B = E.B
        pat = E.lit(r"^p1\.patch\?$")
        s1 = E.when(r"^call StatePatch::set_global$", r"^p1\.patch, p2, p3$")
        s2 = E.when(r"^mut VariablesState\.global_variables insert$", r"^p2, p3$")
        q.same(RC, E, s1, pat, "stored-patch", "with a patch the value does not go into it")
        q.same(RC, E, s2, B.NOT(pat), "stored", "without a patch the value is not stored")
        batch = E.lit(r"^p1\.batch_observing_variable_changes$")
        same = E.lit(r"^Rc::ptr_eq\(")
        had = B.OR(E.lit(r"^p1\.global_variables\[p2\]\?$"), B.AND(pat, E.lit(r"^p1\.patch\.globals\[p2\]\?$")))
        equal = B.AND(had, same)
        rec = E.when(r"^call StatePatch::add_changed_variable$", r"p2$")
        rec2 = E.when(r"^mut VariablesState\.changed_variables_for_batch_obs insert$", "^p2$")
        q.same(RC, E, rec, B.AND(pat, B.AND(batch, B.NOT(equal))), "record-patch", "a change in a batch is not recorded in the patch exactly when the value changed")
        cset = E.lit(r"^p1\.changed_variables_for_batch_obs\?$")
        q.same(RC, E, rec2, B.AND(B.NOT(pat), B.AND(cset, B.AND(batch, B.NOT(equal)))), "record", "a change in a batch is not recorded exactly when the value changed")
        q.same(RC, E, E.when("^return$", "^True$"), B.AND(B.NOT(batch), B.NOT(equal)), "tell", "the caller is not told to notify exactly when the value changed outside a batch")
        for n in E.atoms(r"^Rc::ptr_eq\("):
            X(RC, "p3" in n and "p1.global_variables[p2]" in n, f"compared:{n[:40]}", "the change test does not compare the stored with the new value", E.at)
    E = q.need("VariablesState::apply_patch", RC)
    if E:
        ins = E.sites(r"^mut VariablesState\.global_variables (insert|extend)$")
        X(RC, any(f == 1 and re.search(r"^each\(p1\.patch\.globals\)\.0, each\(p1\.patch\.globals\)\.1|^p1\.patch\.globals", v) for _, v, f in ins), "patch-globals", "applying a patch does not store every value", E.at)
        ch = E.when(r"^mut VariablesState\.changed_variables_for_batch_obs (insert|extend)$", r"p1\.patch\.changed_variables")
        q.same(RC, E, ch, E.lit(r"^p1\.changed_variables_for_batch_obs\?$"), "patch-changes", "applying a patch loses its record of changes")
        X(RC, E.when(r"^set VariablesState\.patch$", "^None$") == 1, "patch-gone", "an applied patch stays", E.at)
    E = q.need("StatePatch::set_global", RC)
    if E:
        X(RC, E.when(r"^mut StatePatch\.globals insert$", "^p2, p3$") == 1, "patch-store", "a patch does not store the value", E.at)
    E = q.need("StatePatch::add_changed_variable", RC)
    if E:
        X(RC, E.when(r"^mut StatePatch\.changed_variables insert$", "^p2$") == 1, "patch-record", "a patch does not record the name", E.at)

    # closing
    E = q.need("VariablesState::complete_variable_observation", FI)
    if E:
        B = E.B
        X(FI, E.when(r"^set VariablesState\.batch_observing_variable_changes$", "^False$") == 1, "ended", "batching goes on after the batch was closed", E.at)
        got = E.sites(r"^local insert$|^return$")
        taken = [v for t, v, f in got if "changed_variables_for_batch_obs" in v]
        X(FI, bool(taken), "collected", "recorded names are not collected", E.at)
        for v in taken:
            m = re.match(r"^each\((.*?)\)(\.0)?, p1\.global_variables\[each\(\1\)\]\.value$", v)
            X(FI, m is not None, "value", f"a recorded name is paired with {v[:160]} instead of its current value", E.at)
        f = 0
        for t, v, g in got:
            if "changed_variables_for_batch_obs" in v:
                f = B.OR(f, g)
        q.implies(FI, E, B.AND(E.lit(r"changed_variables_for_batch_obs\)?\?$"), B.NOT(f)), "all", "a recorded name is left out")
        p = E.when(r"^local insert$", r"^each\(p1\.patch\.changed_variables\), p1\.patch\.globals\[")
        pv = [v for _, v, _ in E.sites("^local insert$", r"patch") if not re.match(r"^each\(p1\.patch\.changed_variables\), p1\.patch\.globals\[each\(p1\.patch\.changed_variables\)\]\.value$", v)]
        X(FI, not pv, "patch-value", f"a name changed in the patch is paired with {pv}", E.at)
        X(FI, E.when(r"^mut VariablesState\.changed_variables_for_batch_obs take$|^set VariablesState\.changed_variables_for_batch_obs$") == 1, "forgotten", "a closed batch keeps its names for the next one", E.at)
    E = q.need("Story::notify_variable_changed", DE)
    if E:
        f = E.when(r"^mut each\(p1\.variable_observers\[p2\]\) changed$|^call VariableObserver::changed$", r"p2, p3$")
        q.same(DE, E, f, E.lit(r"^p1\.variable_observers\[p2\]\?$"), "each", "not every observer of the name is told name and value")
        X(DE, len(E.sites(r" changed$|::changed$")) == 1, "once", "an observer is told more than once", E.at)
        X(DE, any(v == "p1.variable_observers[p2]" for _, v, _ in E.sites("^loop$")), "loop", "not every observer of the name is visited", E.at)

    # host assignment
    E = q.need("Story::set_variable", HO)
    if E:
        B = E.B
        free = E.lit("!" + ASYNC)
        s = E.when(r"^call VariablesState::set$", r"^p1\.state\.variables_state, p2, p3$")
        q.same(HO, E, s, free, "stored", "the value is not stored")
        n = E.when(r"^call Story::notify_variable_changed$", r"^p1, p2, p3$")
        ok = E.lit(r"^VariablesState::set\(p1\.state\.variables_state,p2,p3\)\?$")
        ch = E.lit(r"^VariablesState::set\(p1\.state\.variables_state,p2,p3\)$")
        q.same(HO, E, n, B.AND(free, B.AND(ok, ch)), "notified", "a host assignment does not notify exactly when it changed something")
        X(HO, not E.can_follow(r"^call Story::notify_variable_changed$", r"^call VariablesState::set$"), "order", "the observer is called before the value is stored", E.at)
    E = q.need("VariablesState::set", HO)
    if E:
        B = E.B
        dec = E.lit(r"^p1\.default_global_variables\[p2\]\?$")
        g = E.when(r"^call VariablesState::set_global$")
        q.same(HO, E, g, dec, "declared", "a value is not stored exactly under declared names")
        r = E.lit(r"^VariablesState::set_global\(")
        q.same(HO, E, E.when("^return$", "^True$"), B.AND(dec, r), "told", "the caller is told wrongly whether to notify")

    # registration
    E = q.need("Story::observe_variable", OB)
    if E:
        B = E.B
        dec = B.OR(E.lit(r"^p1\.state\.variables_state\.global_variables\[p2\]\?$"), E.lit(r"^p1\.state\.variables_state\.default_global_variables\[p2\]\?$"))
        ok = B.AND(E.lit("!" + ASYNC), dec)
        reg = E.when(r"^mut (Story\.variable_observers (insert|entry)|p1\.variable_observers\[p2\] push)")
        q.same(OB, E, reg, ok, "registered", "an observer is not registered exactly for a declared variable")
        has = E.lit(r"^p1\.variable_observers\[p2\]\?$")
        q.never(OB, E, B.AND(has, E.when(r"^mut Story\.variable_observers insert$")), "kept", "earlier observers of the name are dropped")
        X(OB, all(v == "p3" for _, v, _ in E.sites(r"^mut p1\.variable_observers\[p2\] push$")), "itself", "something else is registered", E.at)
        X(OB, all(re.match(r"p2, ", v) for _, v, _ in E.sites(r"^mut Story\.variable_observers insert$")), "name", "it is registered under another name", E.at)
    E = q.need("Story::remove_variable_observer", RM)
    if E:
        B = E.B
        keeps = E.sites(r" retain$")
        for t, v, f in keeps:
            X(RM, re.fullmatch(r"λ\(return:\[not Rc::ptr_eq\(p2,p2\)\]\)", v) is not None, f"exact:{t[:40]}", f"what stays is {v[:120]}", E.at)
        X(RM, bool(keeps) or any("ptr_eq" in n for n in E.meta), "identity", "the observer is not found by identity", E.at)
        one = E.when(r"^mut p1\.variable_observers\[p3\] (retain|remove)$")
        q.implies(RM, E, one, "named", "one name is cleaned though none was given", r"^p3\?$")
        al = E.when(r"^mut each\(p1\.variable_observers\)\.1 (retain|remove)$")
        q.never(RM, E, B.AND(al, E.lit(r"^p3\?$")), "everywhere", "every name is cleaned though one was given")
        q.occurs(RM, E, one, "named-some", "the observer is never removed from the name given")
        q.occurs(RM, E, al, "everywhere-some", "the observer is never removed from all names")
        drop = E.when(r"^mut Story\.variable_observers remove$", "^p3$")
        q.implies(RM, E, drop, "empty", "other observers of the name are dropped", r"^empty\(p1\.variable_observers\[p3\]\)$")
        bag = set(E.S["bag"])
        pan = [x for x in bag if x.removeprefix("fn ").split("::")[-1] in ("unwrap", "expect", "panic_fmt", "panic", "unwrap_failed")]
        X(RM, not pan, "panics", f"removing can panic: {pan}", E.at)
    q.subset(OB, writers(A, r"^(set|mut) (Story|p1)\.variable_observers\b"), ["Story::observe_variable", "Story::remove_variable_observer"], "writer", "registrations are also changed by")

    # look-ahead copies
    E = q.need("StoryState::copy_and_start_patching", CP)
    if E:
        vs = [fields_of(v) for _, v, f in E.sites(r"^set StoryState\.variables_state$") if f == 1]
        X(CP, bool(vs) or bool(E.sites(r"variables_state")), "copied", "the variables are not copied", E.at)
        for n in ("batch_observing_variable_changes", "changed_variables_for_batch_obs", "global_variables", "default_global_variables"):
            X(CP, any(d.get(n) == f"p1.variables_state.{n}" for d in vs), f"copy:{n}", f"the look-ahead copy does not carry {n}", E.at)
    E = q.need("Story::restore_state_snapshot", CP)
    if E:
        X(CP, any(f == 1 for _, v, f in E.sites(r"^set Story\.state$", r"state_snapshot_at_last_new_line")), "restored", "a rewind does not bring back the copy", E.at)
