"""C20: the command-line tool's protocol."""
import json
from lib import show, short, cname, walk
from guards import atxt, fields, calls
from paths import feas
from strshape import Shaper, raws, holes, samples, has_weak

DOC_KEYS = {"text", "tags", "choices", "issues", "needInput", "end", "close", "cmdOutput", "compile-success", "export-complete", "stats"}


def strip_cast(t):
    while t[0] == "cast" or (t[0] == "call" and t[1] in ("From::from", "Into::into")):
        t = t[2] if t[0] == "cast" else t[2][0]
    return t


def escape_complete(A, b):
    """problems of a JSON string escaper (char loop), [] if complete"""
    ib = A.I.get(b)
    probs = []
    n = 0
    for blk, t in ib.calls():
        if "ind" in t[1]:
            continue
        pn, rn = cname(t[1])
        if rn not in ("String::push", "String::push_str") and pn not in ("fmt::Write::write_fmt", "Write::write_fmt"):
            continue
        ats = A.G.block(ib, blk)
        arg = A.T.arg(ib, blk, 1)
        eqs = set()
        neq = set()
        ctl_excl = ctl_only = False
        for a in ats:
            if a[1] == "eq" and a[3][0] == "const" and isinstance(a[3][2], int):
                (eqs if a[0] is True else neq if a[0] is False else set()).add(a[3][2])
            if a[1] == "lt":
                x, y = strip_cast(a[2]), strip_cast(a[3])
                if y[0] == "const" and y[2] in (32, " "):
                    if a[0] is False:
                        ctl_excl = True
                    elif a[0] is True:
                        ctl_only = True
                if x[0] == "const" and x[2] in (31, "\x1f"):
                    if a[0] is True:
                        ctl_excl = True
                    elif a[0] is False:
                        ctl_only = True
            if a[1] == "true" and a[2][0] == "call" and a[2][1] in ("char::is_control", "char::is_ascii_control"):
                if a[0] is False:
                    ctl_excl = True
                elif a[0] is True:
                    ctl_only = True
        if arg[0] == "const" and isinstance(arg[2], str) and rn == "String::push_str":
            n += 1
            if eqs:
                for k in eqs:
                    try:
                        if json.loads('"' + arg[2] + '"') != chr(k):
                            probs.append(f"U+{k:04X} is written as {arg[2]!r}")
                    except ValueError:
                        probs.append(f"U+{k:04X} is written as {arg[2]!r}, not a JSON escape")
            continue
        if arg[0] == "const" and isinstance(arg[2], int):
            continue  # literal punctuation pieces
        if rn == "String::push":
            n += 1
            miss = [c for c in (34, 92) if c not in neq]
            if miss:
                probs.append("characters pushed unescaped: " + ", ".join(f"U+{c:04X}" for c in miss))
            ctl = {c for c in range(32) if c not in neq}
            if not ctl_excl and ctl:
                probs.append(f"{len(ctl)} control characters below U+0020 are pushed unescaped")
        elif rn == "String::push_str":
            n += 1
            txt = [x[2] for x in walk(arg) if x[0] == "const" and isinstance(x[2], str)]
            if not any("\\u" in x for x in txt):
                probs.append("a run of the input is appended without escaping")
        else:
            n += 1
    if n < 3:
        # delegating escapers
        r = A.T.ret(ib)
        for x in walk(r):
            d = A.fn(x[1]) if x[0] == "call" else None
            if d is not None and d is not b and d.local_ty(0).endswith("String"):
                return escape_complete(A, d)
        if any("serde_json" in str(x) or x[1].endswith("to_string") for x in walk(r) if x[0] == "call"):
            return []
        return [f"no escaping recognised ({n} append sites)"]
    return probs


def check(ctx):
    A = ctx.world.A["rinklecate"]
    main = A.fn("main")
    A.T.opaque = {p for p in A.crate.adts if p.endswith(("Options", "StoryErrors"))}
    R1 = "json-wellformed"
    ctx.rule(R1, "every stdout print in JSON mode is, for any text in its holes, one JSON object of a documented kind")
    R2 = "escape-complete"
    ctx.rule(R2, "the JSON string escaper leaves no quote, backslash or control character unescaped")
    R3 = "mode-guard"
    ctx.rule(R3, "every stdout print happens in exactly one output mode")
    R4 = "line-parity"
    ctx.rule(R4, "text, tags, choices and issues are shown in both modes from the library's own values under the same conditions")
    R5 = "choice-number"
    ctx.rule(R5, "choice numbers are 1-based both when shown and when read, and range-checked before use")
    R6 = "compile-output"
    ctx.rule(R6, "the file written is the library's output; every failure reports its message and exits non-zero")

    esc_names = set()

    def is_esc_fn(b):
        return b.nargs == 1 and b.local_ty(0).endswith("String") and b.local_ty(1) in ("&str", "&'a str", "&'_ str", "std::string::String", "&std::string::String") and "{closure" not in b.path

    # sanitiser candidates: text -> text functions used in formatted output
    cand = {short(b.path): b for b in A.fns() if is_esc_fn(b) and "change_extension" not in b.path}
    want = lambda b: not is_esc_fn(b)
    # unknown text->text helpers must stay opaque, too
    for nm in cand:
        A.I.known.add(nm)
    ib = A.I.get(main, want, "main")
    used = set()

    def is_escape(n):
        if n in cand:
            used.add(n)
            return True
        return False
    S = Shaper(A, ib, is_escape)
    prints = []
    for blk, t in ib.calls():
        if "ind" in t[1]:
            continue
        rn = cname(t[1])[1]
        if rn in ("io::_print", "io::_eprint", "stdio::_print", "stdio::_eprint"):
            ats = A.G.block(ib, blk)
            mode = None
            for a in ats:
                if a[1] == "true" and "Options.json_output" in fields(a[2]):
                    mode = a[0]
            sh = S.shape(A.T.arg(ib, blk, 0))
            prints.append((blk, rn.endswith("_eprint"), mode, ats, sh, f"{ib.blocks[blk]['o'].file}:{t[5]}"))
        elif rn in ("Stdout::write", "Write::write_all", "<Stdout as Write>::write_all", "Write::write_fmt", "<Stdout as Write>::write_fmt"):
            ctx.fail(R3, f"direct-write:{short(ib.blocks[blk]['o'].path)}", "stdout is written without going through the print macros the rule models", f"line {t[5]}")
    ctx.count("print sites", len(prints), 10, R1)
    keys = {}
    njson = 0
    for blk, err, mode, ats, sh, at in prints:
        if err:
            continue
        who = short(ib.blocks[blk]["o"].path)
        txt = "".join(p[1] if p[0] == "lit" else "{}" for p in sh)
        if mode is None:
            ctx.fail(R3, f"{who}:{txt[:40]!r}", "stdout print that is not confined to one output mode", at)
            continue
        ctx.ok(R3, f"{who} {txt[:40]!r}")
        if mode is not True:
            continue
        njson += 1
        k = None
        bad = [t for t in raws(sh)]
        if bad:
            ctx.fail(R1, f"{who}:{txt[:30]!r}:raw", f"unescaped text {show(bad[0])[:160]} is placed in JSON output {txt!r}", at)
            for d in DOC_KEYS:
                if f'"{d}"' in txt:
                    keys.setdefault(d, []).append((blk, ats, sh, at))
            continue
        if has_weak(sh):
            for d in DOC_KEYS:
                if f'"{d}"' in str(sh):
                    keys.setdefault(d, []).append((blk, ats, sh, at))
            ctx.ok(R1, f"{who} (holes only)")
            continue
        err_ = None
        for s in samples(sh):
            try:
                o = json.loads(s)
                if not isinstance(o, dict) or not o:
                    err_ = f"not an object: {s!r}"
                else:
                    k = next(iter(o))
                    if k not in DOC_KEYS:
                        err_ = f"undocumented kind {k!r}"
            except ValueError as e:
                err_ = f"{s!r} is not JSON ({e})"
            if err_:
                break
        if err_:
            ctx.fail(R1, f"{who}:{txt[:30]!r}", f"output {txt!r}: {err_}", at)
        else:
            ctx.ok(R1, txt)
            keys.setdefault(k, []).append((blk, ats, sh, at))
    ctx.count("JSON print sites", njson, 4, R1)
    ctx.count("JSON kinds", len(keys), 4, R1)
    for d in sorted(DOC_KEYS):
        ctx.expect(R1, d in keys, f"kind:{d}", f"no print produces the documented kind {d!r}")
    for n in sorted(used):
        p = escape_complete(A, cand[n])
        if p:
            ctx.fail(R2, n, "; ".join(sorted(set(p))), f"{cand[n].file}:{cand[n].line}")
        else:
            ctx.ok(R2, n)
    ctx.count("escapers", len(used), None)

    # --- R4 parity ---
    def other(ats):
        """conditions other than the mode"""
        return {A.G.key(a)[:2] + tuple(str(x) for x in A.G.key(a)[2:]) for a in ats if not (a[1] == "true" and "Options.json_output" in fields(a[2]))}

    def src(sh, pred):
        return any(pred(t) for k, t in holes(sh) if k != "int")

    def from_call(name):
        return lambda t: name in calls(t)

    def from_field(f):
        return lambda t: f in fields(t)
    SRC = [("text", from_call("Story::cont"), "line text"),
           ("tags", from_call("Story::get_current_tags"), "line tags"),
           ("choices", from_field("Choice.text"), "choice text"),
           ("choices", from_field("Choice.tags"), "choice tags"),
           ("issues", from_field("StoryErrors.errors"), "story errors"),
           ("issues", from_field("StoryErrors.warnings"), "story warnings")]
    for key, pred, what in SRC:
        # closures' sources are seen through the iterator they map over
        def full(sh, ats, blk):
            if src(sh, pred):
                return True
            a0 = A.T.arg(ib, blk, 0)
            return reaches(A, ib, a0, pred)
        js = [(blk, ats, at) for blk, err, mode, ats, sh, at in prints if mode is True and not err and full(sh, ats, blk)]
        pl = [(blk, ats, at) for blk, err, mode, ats, sh, at in prints if mode is False and full(sh, ats, blk)]
        if not ctx.expect(R4, js, f"json:{what}", f"{what} is not shown in JSON mode") or not ctx.expect(R4, pl, f"plain:{what}", f"{what} is not shown in plain mode"):
            continue
        # conditions: those of the JSON print (weakest over sites) equal those of the plain one, apart from emptiness
        start = A.T and [blk for blk, t in ib.calls() if "ind" not in t[1] and cname(t[1])[1] == "Story::new"]
        before = {atxt(a) for blk in start for a in A.G.block(ib, blk)}

        def conds(l):
            out = None
            for blk, ats, at in l:
                c = {atxt(a) for a in ats if a[1] not in ("empty",) and not iterating(a) and not (a[1] == "true" and "Options.json_output" in fields(a[2]))
                     and not ok_atom(a)} - before
                out = c if out is None else out & c
            return out
        cj, cp = conds(js), conds(pl)
        ctx.expect(R4, cj == cp, f"cond:{what}", f"{what} is shown under different conditions in the two modes: JSON only {sorted(cj - cp)}; plain only {sorted(cp - cj)}", js[0][2])
        # an emptiness test may only concern the value itself
        for blk, ats, at in js + pl:
            for a in ats:
                if a[1] == "empty" and a[0] is True and pred(a[2]):
                    ctx.fail(R4, f"empty:{what}", f"{what} is shown only when it is empty", at)
    # the plain line text is printed exactly as returned
    for blk, err, mode, ats, sh, at in prints:
        if mode is False and not err and src(sh, from_call("Story::cont")):
            ctx.expect(R4, len(sh) == 1, "plain-text-verbatim", "the plain line text is decorated or altered", at)
        for k, t in holes(sh):
            for u in walk(t):
                if u[0] == "call" and ("Story::cont" in calls(u) or "Choice.text" in fields(u)) and u[1].split("::")[-1] in (
                        "trim", "trim_end", "trim_start", "replace", "to_uppercase", "to_lowercase", "trim_matches", "strip_suffix", "strip_prefix"):
                    ctx.fail(R4, f"verbatim:{u[1]}", f"story text is altered by {u[1]} before it is shown", at)
    # issues are flushed after every continue and the collected lists are emptied
    cont = [blk for blk, t in ib.calls() if "ind" not in t[1] and cname(t[1])[1] == "Story::cont"]
    ctx.count("Story::cont sites", len(cont), 1, R4)
    for f in ("errors", "warnings"):
        clr = set()
        for blk, t in ib.calls():
            if "ind" in t[1]:
                continue
            n = cname(t[1])[1]
            if n in ("Vec::clear", "mem::take", "Vec::drain", "mem::replace", "Vec::truncate") and f"StoryErrors.{f}" in fields(A.T.arg(ib, blk, 0)):
                clr.add(blk)
        ctx.expect(R4, clr, f"clear:{f}", f"collected {f} are never emptied, so they would be shown again")
        show_b = {blk for blk, err, mode, ats, sh, at in prints if mode is True and reaches(A, ib, A.T.arg(ib, blk, 0), from_field(f"StoryErrors.{f}"))}
        empt = set()
        for c in cont:
            # a path from cont back to cont (or on to the choices) passes a look at the collected list
            look = set()
            for b2 in ib.reach:
                t2 = ib.blocks[b2]["t"]
                if t2[0] == "call" and "ind" not in t2[1] and t2[2]:
                    try:
                        if f"StoryErrors.{f}" in fields(A.T.arg(ib, b2, 0)):
                            look.add(b2)
                    except Exception:
                        pass
            nxt = {b2 for b2, t2 in ib.calls() if "ind" not in t2[1] and cname(t2[1])[1] in ("Story::cont", "Story::get_current_choices")}
            esc = feas(A, ib, ib.succs[c], look, nxt)[1] is not None
            ctx.expect(R4, not esc, f"flush:{f}", f"after a continue the next continue or the choices can be reached without flushing {f}", f"line {ib.blocks[c]['t'][5]}")
    # --- R5 ---
    ch = [(blk, t) for blk, t in ib.calls() if "ind" not in t[1] and cname(t[1])[1] == "Story::choose_choice_index"]
    ctx.count("choose_choice_index sites", len(ch), 1, R5)
    for blk, t in ch:
        arg = A.T.arg(ib, blk, 1)
        subs = [x for x in walk(arg) if x[0] == "bin" and x[1] == "Sub" and x[3] == ("const", "usize", 1)] + \
               [x for x in walk(arg) if x[0] == "call" and x[1].split("::")[-1] in ("checked_sub", "saturating_sub", "wrapping_sub") and x[2][1] == ("const", "usize", 1)]
        ctx.expect(R5, subs and any("parse" in c for c in calls(arg)), "index-from-input", f"the chosen index is {show(arg)[:120]}, expected the number read minus one", f"line {t[5]}")
        ats = A.G.block(ib, blk)
        rng = any(a[1] == "lt" and a[0] is True and any(c.endswith("len") for c in calls(a[3])) and show(a[2]) == show(arg) for a in ats)
        rng = rng or any(a[1] == "is" and a[0] is True and any(x[0] == "call" and x[1].split("::")[-1] == "get" and show(x[2][1]) == show(arg) for x in walk(a[2])) for a in ats)
        ctx.expect(R5, rng, "range-check", "choose_choice_index is reached without comparing the index to the number of choices shown", f"line {t[5]}")
        zero = True
        for x in subs:
            if x[0] == "bin":
                # guard excluding zero
                body = ib
        # 0 must not wrap: a checked/saturating subtraction, or a guard n >= 1 at the subtraction
        for b2 in ib.reach:
            t2 = ib.blocks[b2]["t"]
            if t2[0] == "assert" and t2[3] == "overflow:Sub":
                lhs = A.T.op(ib, t2[4][0], (b2, len(ib.blocks[b2]["s"])))
                if any("parse" in c for c in calls(lhs)):
                    g = A.G.block(ib, b2)
                    okz = any((a[1] == "lt" and a[0] is False and a[3] == ("const", "usize", 1)) or (a[1] == "lt" and a[0] is True and a[2] == ("const", "usize", 0)) or (a[1] == "eq" and a[0] is False and a[3] == ("const", "usize", 0)) for a in g)
                    ctx.expect(R5, okz, "zero-input", "the input 0 underflows", f"line {t2[6]}")
    shown = [(sh, at) for blk, err, mode, ats, sh, at in prints if mode is False and src(sh, from_field("Choice.text"))]
    for sh, at in shown:
        ints = [t for k, t in holes(sh) if k == "int"]
        ctx.expect(R5, ints and any(x[0] == "bin" and x[1] == "Add" and x[3] == ("const", "usize", 1) for x in walk(ints[0])), "index-shown", "plain choices are not numbered from 1", at)
    dv = [(blk, t) for blk, t in ib.calls() if "ind" not in t[1] and cname(t[1])[1] == "Story::choose_path_string"]
    ctx.count("choose_path_string sites", len(dv), 1, R5)
    for blk, t in dv:
        ctx.expect(R5, A.T.arg(ib, blk, 2) == ("const", "bool", True), "divert-reset", "a user divert does not reset the call stack", f"line {t[5]}")
        bad = [u for u in walk(A.T.arg(ib, blk, 1)) if u[0] == "call" and u[1].split("::")[-1] in ("to_lowercase", "to_uppercase", "replace")]
        ctx.expect(R5, not bad, "divert-path", "the divert path the user typed is altered", f"line {t[5]}")

    # --- R6 ---
    wr = [(blk, t) for blk, t in ib.calls() if "ind" not in t[1] and cname(t[1])[1] in ("fs::write",)]
    ctx.count("fs::write sites", len(wr), 1, R6)
    for blk, t in wr:
        data = A.T.arg(ib, blk, 1)
        alts = data[1] if data[0] == "phi" else (data,)
        good = all(any(x[0] == "call" and x[1] in ("Compiler::compile", "Compiler::compile_with_file_handler") for x in walk(u)) for u in alts)
        alt_calls = {c for u in alts for c in calls(u)} - {"Compiler::compile", "Compiler::compile_with_file_handler", "Compiler::with_options", "str::strip_prefix", "Option::unwrap_or", "fs::read_to_string", "<String as Deref>::deref", "Try::branch"}
        inner = [u for u in alts if not strip_view(u)]
        ctx.expect(R6, good, "written-data", f"the output file receives {show(data)[:160]}, not the compiler's result", f"line {t[5]}")
        ctx.expect(R6, not inner, "written-verbatim", f"the compiler's result is transformed before it is written: {show(inner[0])[:160] if inner else ''}", f"line {t[5]}")
        ctx.expect(R6, "Options.output_file" in fields(A.T.arg(ib, blk, 0)), "written-path", "the output path is not the -o option", f"line {t[5]}")
        g = A.G.block(ib, blk)
        ctx.expect(R6, not any(a[1] == "true" and a[0] is not False and "Options.json_output" in fields(a[2]) for a in g), "write-mode", "the file is written in one output mode only", f"line {t[5]}")
    # compile options come from the command line
    for blk in ib.reach:
        for i, s in enumerate(ib.blocks[blk]["s"]):
            if s[0] == "=" and s[2][0] == "agg" and s[2][2].endswith("CompilerOptions"):
                v = dict(A.T.rvalue(ib, s[2], (blk, i))[4])
                ctx.expect(R6, "Options.count_all_visits" in fields(v.get("count_all_visits", ("?",))), "opt:count_all_visits", "count_all_visits is not taken from the options")
                ctx.expect(R6, v.get("source_filename", ("?",))[0] == "agg" and v["source_filename"][3] == "Some", "opt:source_filename", "the compiler is not told the file name, so errors cannot carry it")
    dflt = A.fn("<Options as Default>::default")
    if dflt:
        v = dict(A.T.ret(dflt)[4])
        ctx.expect(R6, v.get("count_all_visits") == ("const", "bool", True), "default:count_all_visits", "count_all_visits does not default to on")
    # errors: exit codes, messages
    ex = [(blk, t) for blk, t in ib.calls() if "ind" not in t[1] and cname(t[1])[1] == "process::exit"]
    ctx.count("process::exit sites", len(ex), 1, R6)
    for blk, t in ex:
        c = A.T.arg(ib, blk, 0)
        ctx.expect(R6, c[0] == "const" and c[2] not in (0, None), "exit-code", f"process::exit({show(c)}) on an error path", f"line {t[5]}")
    # the Err of run() reaches an eprint and process::exit
    runb = A.fn("run")
    mb = A.I.get(main, None, "main-own")
    rc = [b for b, t in mb.calls() if "ind" not in t[1] and cname(t[1])[1] == "run"]
    for b in rc:
        errb = None
        okexit = False
        for b2, t2 in mb.calls():
            if "ind" not in t2[1] and cname(t2[1])[1] == "process::exit":
                if any(a[1] == "is" and a[0] is False and a[3] == "Ok" and "run" in calls(a[2]) or (a[1] == "is" and a[0] is True and a[3] == "Err") for a in A.G.block(mb, b2)):
                    okexit = True
        ctx.expect(R6, okexit, "run-error-exit", "an Err from run() does not end in process::exit(1)")
        pr = [b2 for b2, t2 in mb.calls() if "ind" not in t2[1] and cname(t2[1])[1].endswith("_eprint") and any(x[0] == "call" and x[1] == "run" for x in walk(A.T.arg(mb, b2, 0)))]
        ctx.expect(R6, pr, "run-error-message", "an Err from run() is not printed")
    ctx.count("run call", len(rc), 1, R6)
    # a failing compile is reported with the error's own Display text (file and line included)
    comp = A.fn("compiler_tool::compile")
    if comp:
        cb = A.I.get(comp, want, "comp")
        calls_ = [(b, t) for b, t in cb.calls() if "ind" not in t[1] and cname(t[1])[1] in ("Compiler::compile", "Compiler::compile_with_file_handler", "Compiler::compile_to_stats", "Compiler::compile_to_stats_with_file_handler")]
        ctx.count("compiler calls", len(calls_), 1, R6)
        names = {cname(t[1])[1] for b, t in calls_}
        for kind, group in (("compile", {"Compiler::compile", "Compiler::compile_with_file_handler"}), ("stats", {"Compiler::compile_to_stats", "Compiler::compile_to_stats_with_file_handler"})):
            rep = False
            for b, t in cb.calls():
                if "ind" in t[1] or cname(t[1])[1] not in ("Vec::push",):
                    continue
                # Display/ToString of the whole error value (message() alone would lose file and line)
                if whole_error(A.T.arg(cb, b, 1), group):
                    rep = True
            ctx.expect(R6, rep, f"{kind}-error-text", f"the {kind} error is not collected with its full text (file, line, message)")
        # every error collected is printed before bailing out
        pm = [b for b, t in cb.calls() if "ind" not in t[1] and cname(t[1])[1].endswith("print_all_messages")]
    # CompilerError's text has file, line and message
    C = ctx.world.A["bladeink_compiler"]
    d = C.fn("<CompilerError as Display>::fmt")
    if ctx.expect(R6, d, "anchor:CompilerError::fmt", "Display for CompilerError not found"):
        db = C.I.get(d, lambda x: True, "disp")
        need = {"file": False, "line": False, "message": False}
        best = 0
        for b, t in db.calls():
            if "ind" in t[1] or "Argument::new_display" not in cname(t[1])[1]:
                continue
            a = C.T.arg(db, b, 0)
            for x in walk(a):
                if x[0] == "field" and x[3] in need:
                    need[x[3]] = True
        for k, v in need.items():
            ctx.expect(R6, v, f"display:{k}", f"CompilerError's text leaves out the {k}")
        msg_all = 0


def strip_view(t):
    """t is the compile result through unwrapping only"""
    u = t
    while True:
        if u[0] in ("down",):
            u = u[1]
        elif u[0] == "field" and u[2] in ("", "std::result::Result::Ok", "std::ops::ControlFlow::Continue") or (u[0] == "field" and "Result" in u[2]):
            u = u[1]
        elif u[0] == "call" and u[1] in ("Try::branch", "Result::unwrap", "Result::map_err", "Result::expect"):
            u = u[2][0]
        elif u[0] == "phi":
            return all(strip_view(x) for x in u[1])
        else:
            return u[0] == "call" and u[1] in ("Compiler::compile", "Compiler::compile_with_file_handler")


def whole_error(a, group):
    """the text a is made from the complete error of one of the calls in group"""
    if a[0] == "phi":
        return all(whole_error(u, group) for u in a[1])
    if a[0] == "field" and a[1][0] == "down" and a[1][2] in ("Err", "Break"):
        base = a[1][1]
        return all(u[0] == "call" and u[1] in group for u in (base[1] if base[0] == "phi" else (base,)))
    if a[0] == "call" and a[1].split("::")[-1] in ("format", "new", "new_display", "to_string", "must_use", "from", "join", "concat"):
        return any(whole_error(u, group) for u in a[2])
    if a[0] == "agg":
        return any(whole_error(v, group) for _, v in a[4])
    if a[0] == "bin" or a[0] == "call" and a[1].endswith("::add"):
        return any(whole_error(v, group) for v in (a[2:] if a[0] == "bin" else a[2]))
    return False


def iterating(a):
    """a loop's own has-next test"""
    if a[1] == "lt" and any(x[0] == "rec" for y in a[2:4] if isinstance(y, tuple) for x in walk(y)):
        return True         # an index loop's own test
    return a[1] == "is" and a[2][0] == "call" and a[2][1].split("::")[-1] in ("next", "next_back", "peek")


def ok_atom(a):
    return a[1] == "is" and a[3] == "Ok" and a[0] is True


def reaches(A, ib, t, pred, depth=0, seen=None):
    """pred holds for t or for anything pushed into the collections t is made of"""
    seen = seen if seen is not None else set()
    if t in seen or depth > 12:
        return False
    seen.add(t)
    if pred(t):
        return True
    S = Shaper(A, ib, lambda n: False)
    ms = S.mutations(ib)
    for x in walk(t):
        if x[0] == "call" and x[1] in ("Vec::new", "String::new", "Vec::with_capacity", "String::with_capacity"):
            for (_, blk, nm, a) in ms.get(x, []):
                if reaches(A, ib, a, pred, depth + 1, seen):
                    return True
        if x[0] == "closure":
            cb = A.crate.bodies.get(x[1])
            if cb is not None and reaches(A, ib, A.T.ret(cb), pred, depth + 1, seen):
                return True
    return False


def reach_avoiding(body, starts, avoid, targets):
    seen = set()
    st = list(starts)
    while st:
        b = st.pop()
        if b in seen or b in avoid:
            continue
        seen.add(b)
        if b in targets:
            return b
        st.extend(body.succs[b])
    return None
