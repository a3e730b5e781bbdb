"""C18: dropping a story releases everything: no ownership cycle can be closed, nothing is leaked on purpose, nothing outlives the story, and resets and loads replace instead of adding."""
import re

import contract
from c17 import LIVES
from common import Q
from eff import Eff, callers, fresh, writers
from names import short

MUT = {"RefCell", "Cell", "OnceCell", "UnsafeCell", "Mutex", "RwLock", "OnceLock", "LazyCell"}
# slots whose type admits a cycle -> why none can be closed; the premises are checked below
REVIEWED = {("Choice", "thread_at_generation"): "a thread only reaches containers, and a container, immutable once shared, is built by the loaders alone, which make no thread"}
LEAKS = r"mem::forget$|::leak$|into_raw$|ManuallyDrop|increment_strong_count|alloc::alloc$|Box::into_non_null|from_raw$|new_cyclic|get_mut_unchecked"
SHARED_MUT = r"Rc::<[^>]*>::(get_mut|make_mut)$|Rc::(get_mut|make_mut)$"
GROW = r"(push|insert|extend|append|push_back|push_str|entry|extend_from_slice)$"


def check(ctx):
    q = Q(ctx)
    A = fresh(ctx.world.A["bladeink"])
    X = ctx.expect
    CY, LK, GL, GR, WK = "cycles", "leaks", "globals", "growth", "weak"
    ctx.rule(CY, "no field that can be changed after its owner is shared may own, through any chain of strong references, an object of the owner's kind")
    ctx.rule(LK, "memory is never taken away from its owner: no forget, leak, raw pointer ownership or manual count")
    ctx.rule(GL, "nothing outlives the story: the library keeps no global or thread-local data")
    ctx.rule(GR, "resets and loads replace every collection instead of adding to it; what outlives them grows by host registration only")
    ctx.rule(WK, "a thread handed to a choice comes from the call stack, and containers are made by the loaders alone")

    adts = {p: a for p, a in A.crate.adts.items()}
    impls = {}
    for p in A.crate.bodies:
        m = re.match(r"<(.+) as ([\w:]+)>::", p)
        if m:
            impls.setdefault(m[2], set()).add(m[1])
    for i in A.crate.impls:
        if i[1] and i[1][0] == "adt":
            impls.setdefault(i[0], set()).add(i[1][1])

    def owned(t, out, slot, path):
        """(adt owned strongly by a value of type t, inside a slot?)"""
        if not isinstance(t, list) or not t:
            return
        k = t[0]
        if k == "adt":
            n = t[1]
            last = n.split("::")[-1]
            if last == "Weak":
                return
            if n in adts:
                out.append((n, slot, path))
                return
            for a in t[2]:
                owned(a, out, slot or last in MUT, path)
        elif k == "dyn":
            for x in sorted(impls.get(t[1], ())):
                if x in adts:
                    out.append((x, slot, path))
        elif k in ("ref", "ptr", "rawptr"):
            return
        else:
            for a in t[1:]:
                if isinstance(a, list):
                    if a and isinstance(a[0], list):
                        for y in a:
                            owned(y, out, slot, path)
                    else:
                        owned(a, out, slot, path)

    edges = {}
    nf = 0
    for p, a in adts.items():
        for v in a["variants"]:
            for f in v[2]:
                nf += 1
                out = []
                owned(f[2], out, False, f[0])
                edges.setdefault(p, []).extend(out)
    ctx.count("fields", nf, 120, CY)

    def closure(n):
        seen, st = set(), [n]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st += [y for y, _, _ in edges.get(x, ())]
        return seen

    slots = 0
    for p, es in sorted(edges.items()):
        for y, slot, f in es:
            if not slot:
                continue
            slots += 1
            if p in closure(y):
                key = (p.split("::")[-1], f)
                X(CY, key in REVIEWED, f"{key[0]}.{f}", f"{key[0]}.{f} can be set after its owner is shared and may own (through {y}) an object of the same kind: a cycle of strong references is never freed", None)
            else:
                ctx.ok(CY, f"{p}.{f} → {y}")
    # a shared cell: Rc<RefCell<T>> where T owns such a cell again
    for p, a in sorted(adts.items()):
        for v in a["variants"]:
            for f in v[2]:
                m = re.search(r"(?:rc::Rc|sync::Arc)<std::cell::(?:RefCell|Cell|OnceCell)<([\w:]+)>", f[1])
                if m and m[1] in adts:
                    slots += 1
                    holders = {x for x, b in adts.items() for w in b["variants"] for g in w[2] if re.search(rf"Rc<std::cell::\w+<{re.escape(m[1])}>", g[1])}
                    bad = holders & closure(m[1])
                    X(CY, not bad, f"{p.split('::')[-1]}.{f[0]}", f"the shared cell {p.split('::')[-1]}.{f[0]} holds a {m[1]}, which may own such a cell again through {sorted(bad)}")
    ctx.count("slots", slots, 4, CY)

    # premises of the reviewed slot
    mk = set(callers(A, "Container::new")) | {short(p.split("::{closure")[0]) for p, b in A.crate.bodies.items() for blk in b.blocks for s in blk["s"] if s[0] == "=" and "'container::Container'" in str(s[2]) and "aggr" in str(s[2])[:12]}
    q.subset(WK, mk, {"json_read::jarray_to_container", "json_read_stream::jarray_to_container", "Container::new"}, "container-made", "a container is also made by")
    q.subset(WK, callers(A, "Choice::set_thread_at_generation"), {"Story::process_choice", "StoryState::load_json_obj", "StoryState::load_flow_choice_threads", "Flow::load_flow_choice_threads"}, "thread-set", "a choice is also given a thread by")
    for fn in ("json_read::jarray_to_container", "json_read_stream::jarray_to_container"):
        reached = set()
        st = [b for b in A.crate.bodies.values() if short(b.path) == fn]
        seen = set()
        while st:
            b = st.pop()
            if b.path in seen:
                continue
            seen.add(b.path)
            reached.add(short(b.path))
            for i in b.reach:
                t = b.blocks[i]["t"]
                if t[0] == "call" and isinstance(t[1], dict):
                    for c in (t[1].get("r"), t[1].get("p")):
                        if c in A.crate.bodies:
                            st.append(A.crate.bodies[c])
        X(WK, not reached & {"Choice::set_thread_at_generation", "CallStack::fork_thread", "Thread::from_json", "Thread::new"}, f"loader:{fn}", f"{fn} also makes threads")
    ctx.ok(WK, "premises")

    n = 0
    statics = set()

    def walk(x):
        if isinstance(x, dict):
            if "static" in x:
                statics.add(x["static"])
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    for Z in (A, fresh(ctx.world.A["bladeink_compiler"])):
        lib = Z is A
        for p, b in sorted(Z.crate.bodies.items()):
            root = short(p.split("::{closure")[0])
            if lib:
                for blk in b.blocks:
                    walk(blk)
            for i in b.reach:
                t = b.blocks[i]["t"]
                if t[0] == "call" and isinstance(t[1], dict):
                    n += 1
                    for c in {t[1].get("r") or "", t[1].get("p") or ""}:
                        if re.search(LEAKS, c):
                            ctx.fail(LK, f"{root}:{c}", f"{root} takes memory from its owner through {c}", f"{b.file}:{b.line}")
                        if lib and re.search(SHARED_MUT, c):
                            ctx.fail(CY, f"{root}:{c}", f"{root} changes a shared object in place through {c}: contents of shared objects are no longer fixed", f"{b.file}:{b.line}")
                        if lib and re.search(r"LocalKey|OnceLock|LazyLock|Atomic\w+::|Mutex|RwLock|thread::local", c):
                            ctx.fail(GL, f"{root}:{c}", f"{root} keeps data outside the story through {c}", f"{b.file}:{b.line}")
    ctx.count("calls scanned", n, 8000, LK)
    ctx.ok(LK, f"{n} calls")
    for s in sorted(statics):
        X(GL, s == "story_state::DEFAULT_FLOW_NAME", f"static:{s}", f"the library keeps the global {s}")
    ctx.ok(GL, f"{len(statics)} statics")

    # growth
    for name, ws in LIVES.items():
        w = writers(A, rf"^(set|mut) Story\.{name}\b")
        q.subset(GR, w, ws, f"writer:{name}", f"Story.{name} outlives resets and loads and also grows through")
    E = q.need("Story::visit_changed_containers_due_to_divert", GR)
    if E:
        c = E.when(r"^(mut Story\.prev_containers clear|set Story\.prev_containers)$")
        p = E.when(r"^mut Story\.prev_containers (push|insert|extend)")
        q.implies(GR, E, p, "prev_containers", "the ancestor list grows with every divert", c)
    E = q.need("Story::reset_state", GR)
    if E:
        q.occurs(GR, E, E.when(r"^set Story\.state$"), "reset", "a reset does not replace the state")
    GONE = {"StoryState": ["evaluation_stack", "visit_counts", "turn_indices", "named_flows"], "Flow": ["output_stream", "current_choices"], "CallStack": ["threads"], "VariablesState": ["global_variables"]}
    grown = 0
    for fn in ("StoryState::load_json_obj", "VariablesState::load_json", "CallStack::load_json", "Story::load_state", "Story::reset_globals", "VariablesState::snapshot_default_globals"):
        E = q.need(fn, GR)
        if not E:
            continue
        for t, v, f in E.sites(r"^mut .* \w+$"):
            m = re.match(r"^mut (?:\w+|p1(?:\.\w+)*)\.(\w+) (\w+)$", t)
            if not m or not re.search(GROW, m[2]):
                continue
            grown += 1
            field = m[1]
            empt = E.when(rf"^mut \S*\.{field} clear$|^set \w+\.{field}$")
            if m[2] == "insert" and fn.endswith("snapshot_default_globals"):
                X(GR, True, "", "")
                continue
            q.implies(GR, E, f, f"{fn}:{field}", f"{fn} adds to {field} without emptying it first", empt)
            X(GR, not E.can_follow(rf"^mut \S*\.{field} {m[2]}$", rf"^mut \S*\.{field} clear$") or m[2] == "remove", f"{fn}:{field}:order", f"{fn} empties {field} after filling it", E.at)
    E = q.need("StoryState::load_json_obj", GR)
    if E:
        for field in ("evaluation_stack", "visit_counts", "turn_indices"):
            q.occurs(GR, E, E.when(rf"^set StoryState\.{field}$"), f"replaced:{field}", f"loading does not replace {field}")
        for field in ("output_stream", "current_choices"):
            q.occurs(GR, E, E.when(rf"^set Flow\.{field}$"), f"replaced:{field}", f"loading does not replace {field}")
        q.implies(GR, E, E.when(r"^mut \S*named_flows insert$"), "replaced:named_flows", "flows of an earlier state stay", E.when(r"^set StoryState\.named_flows$|^mut StoryState\.named_flows clear$"))
    ctx.count("growing sites of loads", grown, 2, GR)
