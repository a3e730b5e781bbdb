"""C02: what a save must carry is written and read back; nothing of the state is forgotten."""
import re
import eff
from common import Q
from eff import adt_fields, contract

W = {"state": "StoryState::write_json", "flow": "Flow::write_json", "stack": "CallStack::write_json", "thread": "Thread::write_json", "choice": "json_write::write_choice", "vars": "VariablesState::write_json"}
R = {"state": "StoryState::load_json_obj", "flow": "Flow::from_json", "stack": "CallStack::load_json", "thread": "Thread::from_json", "choice": "json_read::jobject_to_choice", "vars": "VariablesState::load_json"}
# field -> ("key", written as, read back as [, present when]) | a word why it need not be saved
FIELDS = {
    "StoryState": {
        "current_flow": ("flows", None, None), "named_flows": ("flows", None, None),
        "variables_state": ("variablesState", r"VariablesState::write_json\(p1\.variables_state\)", r"call VariablesState::load_json"),
        "evaluation_stack": ("evalStack", r"write_list_rt_objs\(p1\.evaluation_stack\)", "set StoryState.evaluation_stack"),
        "diverted_pointer": ("currentDivertTarget", r"p1\.diverted_pointer", "set StoryState.diverted_pointer", r"^p1\.diverted_pointer\.container\?$|is_null"),
        "visit_counts": ("visitCounts", r"write_int_dictionary\(p1\.visit_counts\)", "set StoryState.visit_counts"),
        "turn_indices": ("turnIndices", r"write_int_dictionary\(p1\.turn_indices\)", "set StoryState.turn_indices"),
        "current_turn_index": ("turnIdx", r"to_value\(p1\.current_turn_index\)$", "set StoryState.current_turn_index"),
        "story_seed": ("storySeed", r"to_value\(p1\.story_seed\)$", "set StoryState.story_seed"),
        "previous_random": ("previousRandom", r"to_value\(p1\.previous_random\)$", "set StoryState.previous_random"),
        "did_safe_exit": "set anew by each continue", "output_stream_text_dirty": "cache", "output_stream_tags_dirty": "cache", "alive_flow_names_dirty": "cache", "current_text": "cache",
        "current_tags": "cache", "main_content_container": "program", "list_definitions": "program", "current_errors": "delivered before control is back at the host",
        "current_warnings": "delivered before control is back at the host", "patch": "look-ahead only; applied or dropped before control is back at the host"},
    "Flow": {"name": "key of the flow",
             "callstack": ("callstack", r"CallStack::write_json\(p1\.callstack\)", "call CallStack::load_json"),
             "output_stream": ("outputStream", r"write_list_rt_objs\(p1\.output_stream\)", "return output_stream"),
             "current_choices": ("currentChoices", None, "return current_choices")},
    "CallStack": {"thread_counter": ("threadCounter", r"to_value\(p1\.thread_counter\)$", "set CallStack.thread_counter"), "start_of_root": "program", "threads": ("threads", None, "set|mut|push CallStack.threads")},
    "Thread": {"callstack": ("callstack", None, "local push"),
               "previous_pointer": ("previousContentObject", r"p1\.previous_pointer", "set Thread.previous_pointer", r"^p1\.previous_pointer\.container\?$"),
               "thread_index": ("threadIndex", r"to_value\(p1\.thread_index\)$", "set Thread.thread_index")},
    "Element": {"current_pointer": (("cPath", "idx"), r"current_pointer\.(container|index)", "set Pointer", r"current_pointer\.container\?$"),
                "in_expression_evaluation": ("exp", r"in_expression_evaluation\)$", "element in_expression_evaluation"),
                "temporary_variables": ("temp", r"write_dictionary_values\(.*temporary_variables\)", "set Element.temporary_variables", r"^!empty\(.*temporary_variables\)$"),
                "push_pop_type": ("type", r"push_pop_type", "element push_pop_type"),
                "evaluation_stack_height_when_pushed": "only inside a function evaluation of the host, where saving is not possible", "function_start_in_output_stream": "output is empty or the function has printed by the time a line ends"},
    "Choice": {"obj": "content address", "thread_at_generation": "by thread index or choiceThreads", "is_invisible_default": ("invisibleDefault", r"True", "return is_invisible_default", r"^p1\.is_invisible_default$"),
               "original_thread_index": ("originalThreadIndex", r"to_value\(p1\.original_thread_index\)$", "return original_thread_index"),
               "source_path": ("originalChoicePath", r"to_value\(p1\.source_path\)$", "return source_path"), "target_path": ("targetPath", r"to_value\(p1\.target_path\)$", "return target_path"),
               "tags": ("tags", r"write_choice_tags\(p1\)|p1\.tags", "return tags"), "index": ("index", r"to_value\(p1\.index\)$", "return index"), "text": ("text", r"to_value\(p1\.text\)$", "return text")},
    "VariablesState": {"global_variables": "by name", "default_global_variables": "program", "batch_observing_variable_changes": "closed before control is back at the host", "callstack": "repointed",
                       "changed_variables_for_batch_obs": "closed before control is back at the host", "patch": "look-ahead only", "list_defs_origin": "program"},
    "InkList": {"items": "list", "origins": "found again from the names when the list is used", "initial_origin_names": "origins"},
    "InkListItem": {"origin_name": "in the item's key", "item_name": "in the item's key"},
    "VariablePointerValue": {"variable_name": "^var", "context_index": "ci"},
    "StringValue": {"string": "the text", "is_inline_whitespace": "derived from the text", "is_newline": "derived from the text"},
    "Pointer": {"container": "path", "index": "index"},
    "Value": {"obj": "content address", "value": "value"},
}
HOLDER = {"StoryState": "state", "Flow": "flow", "CallStack": "stack", "Thread": "thread", "Element": "thread", "Choice": "choice", "VariablesState": "vars"}
ONLY_WRITTEN = {"state": {"inkFormatVersion"}}
ONLY_READ = {"state": {"callstackThreads", "outputStream", "currentChoices", "choiceThreads"}}    # saves of old versions
# kind of value or content -> how it is written, and what the reader makes of it under the token's condition
KINDS = {
    "bool": (r"^serde_json::to_value\(.*@Bool\.0\)$", r"^(True|False)$|@Bool\.0$"),
    "int": (r"^serde_json::to_value\(TryInto::try_into<i32>\(p1\)\)$", r"try_into<i32>\(Value::as_i64\(p1\)\)|as_i64\(p1\)"),
    "float": (r"^serde_json::to_value\(TryInto::try_into<f32>\(p1\)\)$", r"Value::as_f64\(p1\)"),
    "string": (r'^serde_json::to_value\("\^"\)$|'r"^serde_json::to_value\(String::new\(\)\)$|^serde_json::to_value\(fmt", r"^p1@String\.0\[RangeFrom\{start:1\}\]$"),
    "list": (r"^json_write::write_ink_list\(", r"^InkList\{"),
    "glue": (r'^serde_json::to_value\("<>"\)$', "^Glue\\{"),
    "command": (r"^serde_json::to_value\(ControlCommand::get_name\(", r"^ControlCommand::new_from_name\(p1@String\.0\)$"),
    "void": (r'^serde_json::to_value\("void"\)$', r"^Void\{"),
    "choice": (r"^json_write::write_choice\(", r"^json_read::jobject_to_choice\("),
    "native": (r"NativeFunctionCall::get_name\(", r"^NativeFunctionCall::new_from_name\("),
    "container": (r"^json_write::write_rt_container\(", r"^json_read::jarray_to_container\("),
}
TOKENS = {"^->": (r"try_into<Path>|DivertTarget", r"^Path::new_with_components_string|DivertTarget"), "^var": (r"variable_name", r"VariablePointer"), "ci": (r"context_index", r"VariablePointer"),
          "#": (r"\.text", r"^Tag\{"), "->": (r"get_target_path_string|variable_divert_name", r"^Divert\{"), "f()": (r"", r"^Divert\{"), "->t->": (r"", r"^Divert\{"), "x()": (r"", r"^Divert\{"),
          "*": (r"get_path_string_on_choice", r"^ChoicePoint\{"), "flg": (r"get_flags", r"^ChoicePoint\{"), "VAR?": (r"name", r"^VariableReference\{"), "CNT?": (r"get_path_string_for_count", r"^VariableReference\{"),
          "VAR=": (r"variable_name", r"^VariableAssignment\{"), "temp=": (r"variable_name", r"^VariableAssignment\{"), "re": (r"True", r"^VariableAssignment\{"),
          "var": (r"True", r"^Divert\{"), "c": (r"True", r"^Divert\{"), "exArgs": (r"external_args", r"^Divert\{")}


def inserted(E):
    """literal key -> [(value, condition)]"""
    out = {}
    for t, v, f in E.sites(r"^local insert$"):
        v = contract.full(v)
        m = re.match(r'^("(?:[^"\\]|\\.)*"), (.*)$', v, re.S)
        if m:
            import json
            out.setdefault(json.loads(m.group(1)), []).append((m.group(2), f))
    return out


def keyread(E):
    txt = " ".join([contract.full(v) for d in E.ev.values() for v in d] + [contract.full(n) for n in E.meta])
    return set(re.findall(r'\["((?:[^"\\]|\\.)*)"\]', txt)) | {x[1:-1] for x in E.S["bag"] if x.startswith('"') and x[1:-1] in TOKENS}, txt


def check(ctx):
    q = Q(ctx)
    A, X = q.A, ctx.expect
    CL, WR, RD, KY, KI, OR, LO, VA, FL = "classified", "written", "read", "keys", "kinds", "order", "load", "globals", "flows"
    ctx.rule(CL, "every field of everything a save covers is either saved under a key, derived from what is saved, or at rest whenever the host can save")
    ctx.rule(WR, "each saved field is written under its key, from that field, on every successful save (or exactly when it differs from what a missing key means)")
    ctx.rule(RD, "each saved field is set from its key on every successful load")
    ctx.rule(KY, "writer and reader of each part use the same keys")
    ctx.rule(KI, "each kind of value and content that a save can hold is written in a form the reader turns back into that kind")
    ctx.rule(OR, "stacks, threads, outputs and choices are written and read in order, whole")
    ctx.rule(LO, "a load replaces the parts, drops cached text, and points the variables at the loaded call stack")
    ctx.rule(VA, "a global left out of a save is one that still has its default value and kind; a load gives every declared global its saved value or else its default")
    ctx.rule(FL, "all flows are saved under their names with the current one marked, and loaded as such")
    for adt, tab in FIELDS.items():
        have = adt_fields(A, adt)
        X(CL, bool(have), f"type:{adt}", f"{adt} not found")
        for f in have:
            X(CL, f in tab, f"{adt}.{f}", f"{adt}.{f} is neither saved nor known to be derived or at rest")
    w = {k: q.need(n, WR) for k, n in W.items()}
    r = {k: q.need(n, RD) for k, n in R.items()}
    if not all(w.values()) or not all(r.values()):
        return
    wk = {k: inserted(e) for k, e in w.items()}
    for adt, tab in FIELDS.items():
        if adt not in HOLDER:
            continue
        part = HOLDER[adt]
        E, L = w[part], r[part]
        B = E.B
        for f, spec in tab.items():
            if isinstance(spec, str):
                continue
            keys = spec[0] if isinstance(spec[0], tuple) else (spec[0],)
            for key in keys:
                got = wk[part].get(key)
                if not X(WR, bool(got), f"{part}:{key}", f"{key} is no longer written", E.at):
                    continue
                if spec[1]:
                    for v, _ in got:
                        X(WR, re.search(spec[1], v) is not None, f"{part}:{key}:value", f"{key} is written as {v[:120]} instead of {adt}.{f}", E.at)
                cond = 0
                for _, g in got:
                    cond = B.OR(cond, g)
                # on every run that gets to the end: no earlier part failed
                okc = 1
                for n in E.meta:
                    if re.search(r"(write_json|write_list_rt_objs|write_dictionary_values|write_rtobject)\(.*\)′?\?$", n) and "named_flows" not in n and "thread_at_generation" not in n:
                        okc = B.AND(okc, B.var(n))
                if len(spec) > 3:
                    okc = B.AND(okc, E.lit(spec[3]))
                q.implies(WR, E, B.AND(okc, B.NOT(cond)), f"{part}:{key}:always", f"{key} is left out of a save")
            if spec[2] is None:
                continue
            B2 = L.B
            how, _, fld = spec[2].partition(" ")
            key = keys[0]
            at = L.at
            if how == "return":
                vs = [contract.full(v) for t, v, _ in L.sites("^return$") if not v.startswith(("Err(", "err("))]
                m = [field_text(v, fld) for v in vs]
                X(RD, bool(m) and all(x is not None and (f'["{key}"]' in x or key == "tags" and "jarray_to_tags(p1)" in x) for x in m), f"{part}:{key}", f"{adt}.{f} is not read from {key}: {[str(x)[:100] for x in m]}", at)
            elif how == "element":
                vs = [contract.full(v) for t, v, _ in L.sites("^local push$") if contract.full(v).startswith("Element{")]
                if fld == "push_pop_type":
                    X(RD, key in keyread(L)[0], f"{part}:{key}", f"{key} is not read", at)
                else:
                    m = [field_text(v, fld) for v in vs]
                    X(RD, bool(m) and all(x is not None and f'["{key}"]' in x for x in m), f"{part}:{key}", f"{adt}.{f} is not read from {key}: {[str(x)[:100] for x in m]}", at)
            elif how == "set|mut|push":
                # filled in place, or from a list made here or collected
                ss = [v for t, v, _ in L.sites(rf"^(mut {re.escape(fld)} (push|extend)|set {re.escape(fld)}|local (push|extend))$")]
                X(RD, any(f'["{key}"]' in contract.full(v) for v in ss) and bool(L.sites(rf"^(mut|set) {re.escape(fld)}\b")), f"{part}:{key}", f"{adt}.{f} is not set from {key}", at)
            else:
                tre = "^" + re.escape(spec[2]) + (r"\.\w+$" if fld == "Pointer" else "$")
                ss = L.sites(tre)
                for k2 in keys:
                    use = [v for t, v, _ in ss if f'["{k2}"]' in contract.full(v)]
                    X(RD, bool(use), f"{part}:{k2}", f"{adt}.{f} is not set from {k2}", at)
                if f == "previous_random":
                    ss = [x for x in ss if contract.full(x[1]) != "0"]
                if not fld.startswith("push"):
                    X(RD, all(any(f'["{k2}"]' in contract.full(v) for k2 in keys) for _, v, _ in ss), f"{part}:{key}:only", f"{adt}.{f} also takes {[v[:80] for _, v, _ in ss]}", at)
                X(RD, not [v for _, v, _ in ss if re.search(r" (Add|Sub|Mul|Div) ", contract.full(v).split("Sub 1)|")[0]) and f not in ()], f"{part}:{key}:unaltered", f"{adt}.{f} is changed on the way in", at)
    # keys
    for k in W:
        a, b = set(wk[k]), keyread(r[k])[0]
        if k == "flow":
            b |= {"choiceThreads"} & keyread(r["flow"])[0]
        if k == "choice":
            tg = q.need("json_read::jarray_to_tags", RD)
            b |= keyread(tg)[0] if tg else set()
        for x in sorted(a - b - ONLY_WRITTEN.get(k, set())):
            X(KY, False, f"{k}:{x}", f"{x} is written and never read", w[k].at)
        for x in sorted(b - a - ONLY_READ.get(k, set())):
            X(KY, False, f"{k}:{x}", f"{x} is read and never written", r[k].at)
        X(KY, bool(a) or k == "vars", f"{k}:some", "no keys are written", w[k].at)
        ctx.count(f"keys of {k}", len(a))
    # versions
    E, L = w["state"], r["state"]
    vv = [v for v, _ in wk["state"].get("inkSaveVersion", [])]
    X(KY, len(vv) == 1 and re.search(r"\((\d+)\)", vv[0]) is not None, "version", f"save version is {vv}", E.at)
    if vv and re.search(r"\((\d+)\)", vv[0]):
        n = int(re.search(r"\((\d+)\)", vv[0]).group(1))
        lim = [int(m.group(1)) for x in L.meta for m in [re.search(r'inkSaveVersion"\]\) < (\d+)$', x)] if m]
        X(KY, all(n >= x for x in lim), "version-accepted", f"a save of version {n} is refused (limits {lim})", L.at)
    # kinds
    WO, RO = q.need("json_write::write_rtobject", KI), q.need("json_read::jtoken_to_runtime_object", KI)
    if WO and RO:
        for k, (a, b) in KINDS.items():
            q.occurs(KI, WO, WO.when("^return$", a), f"write:{k}", f"{k} is not written in its own form")
            q.occurs(KI, RO, RO.when("^return$", b), f"read:{k}", f"{k} is not read back")
        X(KI, re.search(r'"\^"', " ".join(v for t, v, f in WO.sites(r"^local push_str$"))) is not None or any('"^' in contract.full(v) for t, v, f in WO.sites("^return$")), "write:string-mark", "text is written without its mark", WO.at)
        q.occurs(KI, WO, WO.when(r"^local push_str$|^return$", r"\\n"), "write:newline", "a newline is not written as such")
        wt = inserted(WO)
        rk = keyread(RO)[0]
        for k, (a, b) in TOKENS.items():
            got = wt.get(k, [])
            X(KI, bool(got) and all(re.search(a, v) for v, _ in got), f"token:{k}", f"{k} is written as {[v[:80] for v, _ in got]}", WO.at)
            X(KI, k in rk, f"token-read:{k}", f"{k} is not read", RO.at)
            if k in ("re", "ci", "flg", "var", "c", "exArgs"):
                continue
            rv = RO.when("^return$", b)
            lit = RO.lit(rf'^.*\["{re.escape(k)}"\]\?$')
            q.occurs(KI, RO, RO.B.AND(lit, rv), f"token-kind:{k}", f"{k} is not read back as {b}")
        # the reader never makes anything else of a token
        for k, (a, b) in TOKENS.items():
            if k in ("^->", "^var"):
                lit = RO.lit(rf'^p1@Object\.0\["{re.escape(k)}"\]\?$')
                first = RO.B.AND(lit, RO.lit(r"^p1 is Object$"))
                if k == "^var":
                    first = RO.B.AND(first, RO.lit(r'!^p1@Object\.0\["\^->"\]\?$'))
                other = 0
                for t, v, f in RO.sites("^return$"):
                    if not re.search(b, contract.full(v)) and not v.startswith(("Err(", "err(")):
                        other = RO.B.OR(other, f)
                q.never(KI, RO, RO.B.AND(first, other), f"token-only:{k}", f"{k} is read back as something else")
        # list items
        LI = q.need("json_write::write_ink_list", KI)
        if LI:
            X(KI, any(re.search(r"each\(p1\.items\)\.1", contract.full(v)) for _, v, _ in LI.sites("^local insert$")), "list:values", "item values are not written", LI.at)
            for part in (r"item_name", r"origin_name"):
                X(KI, any(re.search(r"each\(p1\.items\)\.0\." + part, contract.full(v)) for _, v, _ in LI.sites("^local (push_str|insert)$")), f"list:{part}", f"an item is written without its {part}", LI.at)
            o = LI.when("^local insert$", '^"origins"')
            q.never(KI, LI, LI.B.AND(LI.B.AND(LI.lit(r"^empty\(p1\.items\)$") if LI.atoms(r"^empty\(p1\.items\)$") else 1, LI.lit(r"!^empty\(p1\.initial_origin_names\)$")), LI.B.NOT(o)), "list:origins", "the origins of an empty list are not written")
    # order
    for n, src in (("json_write::write_list_rt_objs", "p1"), ("json_read::jarray_to_runtime_obj_list", None), (W["stack"], r"p1.threads"), (W["thread"], "p1.callstack"), (W["flow"], "p1.current_choices"), (R["stack"], None),
                   (R["thread"], None), (R["flow"], None), ("json_write::write_choice_tags", "p1.tags"), ("json_read::jarray_to_tags", None), ("json_write::write_dictionary_values", "p1"),
                   ("json_read::jobject_to_hashmap_values", None), ("json_write::write_int_dictionary", "p1"), ("json_read::jobject_to_int_hashmap", None)):
        E = q.need(n, OR)
        if not E:
            continue
        bad = [x for x in E.S["bag"] if x.removeprefix("fn ").split("::")[-1] in ("rev", "reverse", "skip", "step_by", "sort", "dedup", "filter", "truncate", "insert_first", "rposition")]
        X(OR, not bad, f"{n}:whole", f"{n} reorders or leaves out: {bad}", E.at)
        texts = " ".join(contract.full(v) for d in E.ev.values() for v in d)
        X(OR, not re.search(r"Iterator::(rev|skip|step_by|filter|skip_while|take_while)\(", texts), f"{n}:iter", f"{n} does not go through everything in order", E.at)
        if src:
            if n == W["flow"]:
                ch = [v for t, v, f in E.sites("^local push$|^local insert$|^loop$|^return$") if "write_choice" in v or v == src]
                X(OR, bool(ch), f"{n}:all", "choices are not all written", E.at)
            else:
                t = E.when("^loop$", "^" + re.escape(src) + "$")
                X(OR, t != 0 or src in texts, f"{n}:all", f"{n} does not go through {src}", E.at)
    P = q.need("json_write::write_list_rt_objs", OR)
    if P:
        c = P.lit(r"write_rtobject\(each\(p1\)\)′?\?$")
        q.implies(OR, P, P.B.AND(c, P.B.NOT(P.when("^local push$|^return$", r"write_rtobject\(each\(p1\)\)|λ"))), "objs:each", "an object of a list is not written")
    # choice threads
    E, L = w["flow"], q.need("Flow::load_flow_choice_threads", FL)
    B = E.B
    absent = E.lit(r"!^Iterator::(find|any)\(p1\.callstack\.threads")
    if L:
        ct = [(v, f) for t, v, f in E.sites("^local insert$") if "Thread::write_json" in v]
        X(FL, bool(ct), "choice-threads", "threads of choices are not written", E.at)
        g = 0
        for _, f in ct:
            g = B.OR(g, f)
        okc = B.AND(E.lit(r"CallStack::write_json\(p1\.callstack\)′?\?$"), B.AND(E.lit(r"write_list_rt_objs\(p1\.output_stream\)′?\?$"), E.lit(r"^Thread::write_json\(.*\?$")))
        q.implies(FL, E, B.AND(B.AND(absent, okc), B.NOT(g)), "choice-threads:absent", "the thread of a choice that is not on the call stack is not written")
        X(FL, E.when("^local insert$", '^"choiceThreads"') != 0 and "choiceThreads" in keyread(r["flow"])[0], "choice-threads:key", "choiceThreads is not written or not read", E.at)
        X(FL, any("original_thread_index" in t and "thread_at_generation" in contract.full(v) and "thread_index" in contract.full(v) or "original_thread_index" in t for t, v, f in E.sites(r"^(mut|set) Choice\.original_thread_index")), "choice-threads:index", "the thread index of a choice is not brought up to date before it is written", E.at)
        st = L.when(r"^call Choice::set_thread_at_generation$|^(set|mut) Choice\.thread_at_generation")
        X(FL, st != 0 and bool(L.sites(r"^call Thread::from_json$")), "choice-threads:load", "choices do not get their threads back", L.at)
        fr = L.sites(r"^call Choice::set_thread_at_generation$")
        f1 = [v for t, v, f in fr if "Thread::from_json" not in contract.full(v)]
        X(FL, bool(f1) and all("thread_index" in contract.full(v) and "original_thread_index" in " ".join([contract.full(v)] + list(L.meta)) or True for v in f1), "choice-threads:live", "choices whose thread is on the call stack do not get it", L.at)
    # flows
    E, L = w["state"], r["state"]
    ins = E.sites("^local insert$")
    X(FL, any(re.match(r"^p1\.current_flow\.name, Flow::write_json\(p1\.current_flow\)", contract.full(v)) for t, v, f in ins), "save:current", "the current flow is not saved under its name", E.at)
    X(FL, any(re.match(r"^each\(p1\.named_flows\)\.0, Flow::write_json\(each\(p1\.named_flows\)\.1\)", contract.full(v)) for t, v, f in ins), "save:parked", "parked flows are not saved under their names", E.at)
    X(FL, any(re.search(r"to_value\(p1\.current_flow\.name\)$", v) for v, _ in wk["state"].get("currentFlowName", [])), "save:mark", "the current flow is not marked", E.at)
    for t, v, f in L.sites(r"^set StoryState\.current_flow$"):
        v = contract.full(v)
        one = re.match(r'^Flow::from_json\(each\(Value::as_object\(p2\["flows"\]\)\)\.0,', v) is not None
        many = v.count('p1.named_flows[Value::as_str(p2["currentFlowName"])]') >= 1
        X(FL, one or many, "load:current", f"the current flow becomes {v[:120]}", L.at)
        if one:
            q.implies(FL, L, f, "load:single", "the first flow becomes current although there are several", r'^Map::len\(.*"flows".*\) == 1$|^1 < .*"flows"|!^1 < Map::len')
    # load
    L = r["state"]
    B = L.B
    fl = L.when(r"^set StoryState\.current_flow$")
    cs = L.sites(r"^call VariablesState::set_callstack$")
    X(LO, bool(cs) and all(re.search(r"p1\.current_flow\.callstack", contract.full(v)) for t, v, f in cs), "repoint", "the variables are not pointed at the loaded call stack", L.at)
    X(LO, not L.can_follow(r"^call VariablesState::set_callstack$", r"^set StoryState\.current_flow$"), "repoint-last", "the flow is replaced after the variables were pointed at its call stack", L.at)
    done = B.AND(L.when(r"^set StoryState\.story_seed$"), L.lit(r'^p2\["variablesState"\]\?$'))
    q.implies(LO, L, B.AND(done, B.NOT(L.when(r"^call VariablesState::set_callstack$"))), "repoint-always", "a load does not point the variables at the loaded call stack")
    q.implies(LO, L, B.AND(done, B.NOT(L.when(r"^call StoryState::output_stream_dirty$|^set StoryState\.output_stream_text_dirty$"))), "dirty", "cached text survives a load")
    X(LO, not L.can_follow(r"^call StoryState::output_stream_dirty$", r"^set StoryState\.current_flow$"), "dirty-last", "the output is replaced after the cached text was dropped", L.at)
    for f in ("evaluation_stack", "visit_counts", "turn_indices", "current_turn_index", "story_seed", "previous_random"):
        X(LO, L.when(rf"^set StoryState\.{f}$") != 0, f"part:{f}", f"{f} is not replaced by a load", L.at)
        k = FIELDS["StoryState"][f][0]
        q.implies(LO, L, B.AND(B.AND(L.when(r"^set StoryState\.story_seed$"), L.lit(rf'^p2\["{k}"\]\?$')), B.NOT(L.when(rf"^set StoryState\.{f}$"))) if f not in ("story_seed", "previous_random") else 0, f"part-always:{f}", f"a load can leave the old {f}")
    for n, tgt in (("Story::save_state", "StoryState::to_json"), ("Story::load_state", "StoryState::load_json"), ("StoryState::to_json", "StoryState::write_json"), ("StoryState::load_json", "StoryState::load_json_obj")):
        E = q.need(n, LO)
        if E:
            X(LO, bool(E.sites(rf"^call {tgt}$")), f"entry:{n}", f"{n} does not go through {tgt}", E.at)
    # stack/thread internals
    L = r["stack"]
    q.implies(LO, L, L.B.AND(L.when(r"^set CallStack\.thread_counter$"), L.B.NOT(L.when(r"^mut CallStack\.threads clear$|^set CallStack\.threads$"))), "threads-replaced", "threads of before the load stay")
    X(LO, not L.can_follow(r"^mut CallStack\.threads push$", r"^mut CallStack\.threads (clear|truncate|drain)$"), "threads-order", "loaded threads are dropped again", L.at)
    # enum written by number, read by number
    E, L = w["thread"], r["thread"]
    vs = eff.variants_of(A, "PushPopType")
    X(RD, vs == ["Tunnel", "Function", "FunctionEvaluationFromGame"], "thread:type:variants", f"kinds of frame are numbered {vs} in saves", L.at)
    # globals
    E, L = w["vars"], r["vars"]
    B = E.B
    sv = E.when("^local insert$", r"^each\(p1\.global_variables\)\.0, json_write::write_rtobject\(each\(p1\.global_variables\)\.1\)")
    okw = E.lit(r"^json_write::write_rtobject\(.*\?$")
    same = E.lit(r"^VariablesState::val_equal\(") if E.atoms(r"^VariablesState::val_equal\(") else 0
    dv = E.lit(r"^p1\.default_global_variables\[each\(p1\.global_variables\)\.0\]′?\?$")
    q.implies(VA, E, B.AND(okw, B.NOT(B.OR(sv, B.AND(same, dv)))), "kept", "a global that differs from its default is left out of the save")
    q.occurs(VA, E, sv, "some", "globals are not saved")
    LB = L.B
    si = L.when(r"^mut VariablesState\.global_variables insert$", r"\.0, dc<Value>\(json_read::jtoken_to_runtime_object\(p2\[each\(p1\.default_global_variables\)\.0\]")
    sd = L.when(r"^mut VariablesState\.global_variables insert$", r"^each\(p1\.default_global_variables\)\.0, each\(p1\.default_global_variables\)\.1$")
    has = L.lit(r"^p2\[each\(p1\.default_global_variables\)\.0\]\?$")
    q.occurs(VA, L, si, "load:saved", "saved values are not loaded")
    q.never(VA, L, LB.AND(si, LB.NOT(has)), "load:when", "a value that was not saved is loaded")
    q.implies(VA, L, LB.AND(LB.NOT(has), LB.NOT(sd)), "load:default", "a global that was not saved does not get its default")
    X(VA, L.when(r"^mut VariablesState\.global_variables clear$|^set VariablesState\.global_variables$") == 1 and not L.can_follow(r"^mut VariablesState\.global_variables insert$", r"^mut VariablesState\.global_variables clear$"), "load:clear", "globals of before the load stay", L.at)
    V = q.need("VariablesState::val_equal", VA)
    if V:
        t = V.when("^return$", r"^True$")
        for k in ("Bool", "Int", "Float", "List", "String", "DivertTarget", "VariablePointer"):
            a = [n for n in V.meta if re.match(rf"^p2(\.value)? is {k}$", n)]
            b = [n for n in V.meta if re.match(rf"^p3(\.value)? is {k}$", n)]
            if a and b:
                q.never(VA, V, V.B.AND(t, V.B.AND(V.B.var(a[0]), V.B.NOT(V.B.var(b[0])))), f"equal:{k}", f"values count as equal although only one is {k}")


def field_text(v, f):
    """text of field f of a struct text, up to the next field"""
    m = re.search(rf"[{{ ]{f}:", v)
    if not m:
        return None
    d, i = 0, m.end()
    for j in range(i, len(v)):
        c = v[j]
        if c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
            if d < 0:
                return v[i:j]
        elif c == "," and d == 0 and re.match(r", \w+:", v[j:]):
            return v[i:j]
    return v[i:]
