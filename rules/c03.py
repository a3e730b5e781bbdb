"""C03: what is shown and stored is a function of program, seed and host calls."""
import glob
import os
import re

import contract
from build import REPO
from c06 import hash_order
from common import Q
from eff import Eff, callers, contracts, fields_of, fresh, writers
from names import short

# walks over hash tables whose result does not depend on the order: why
WALKS = {
    "Container::build_string_of_hierarchy": "debug text, not part of play",
    "Container::get_named_only_content": "copied into an ordered map",
    "Container::new": "each entry only gets its parent",
    "Story::remove_variable_observer": "one removal per entry, of that entry only",
    "Story::validate_external_bindings_container": "missing names go into an ordered set",
    "StoryState::apply_any_patch": "one insert per key into a map",
    "StoryState::write_json": "keys of a JSON object: equivalent saves",
    "VariablesState::apply_patch": "one insert per key into a map or set",
    "VariablesState::complete_variable_observation": "into an ordered map",
    "VariablesState::load_json": "one insert per key into a map",
    "VariablesState::snapshot_default_globals": "one insert per key into a map",
    "VariablesState::write_json": "keys of a JSON object: equivalent saves",
    "json_write::write_dictionary_values": "keys of a JSON object: equivalent saves",
    "json_write::write_int_dictionary": "keys of a JSON object: equivalent saves",
    "json_write::write_rt_container": "keys of a JSON object",
    "json_write::write_dictionary_runtime_objs": "keys of a JSON object: equivalent saves",
}
# call -> (what it is, the functions that may make it)
SOURCES = [
    (r"^rand::(?!Rng)([a-z]\w*::)*(rng|thread_rng|random|random_range|random_bool|random_iter|make_rng)$|from_os_rng|from_entropy|OsRng|SysRng|getrandom", "the system's random numbers", {"StoryState::new"}),
    (r"SeedableRng::(?!seed_from_u64)", "a generator not seeded from the story seed", set()),
    (r"SeedableRng::seed_from_u64$", "a seeded generator", {"Story::perform_logic_and_flow_control", "Story::next_sequence_shuffle_index"}),
    (r"(Instant|SystemTime)::(now|elapsed|duration_since)$", "the clock", {"Story::continue_internal"}),
    (r"^std::((env|fs|net|process)::|thread::(?!local))", "the environment", set()),
    (r"RandomState|DefaultHasher|BuildHasher", "a hash of random keys", set()),
    (r"LocalKey|OnceLock|LazyLock|static_mut|Atomic\w+::", "state that outlives the story", set()),
    (r"fmt::Pointer|::addr$|expose_provenance|as_ptr_range", "an address", set()),
    (r"std::ptr::(eq|addr_eq)$", "identity", {"Container::build_string_of_hierarchy", "Object::get_path", "StoryState::push_evaluation_stack"}),
]
ORDERED = {("InkList", "items"): "BTreeMap", ("ListDefinition", "items"): "BTreeMap", ("ListDefinition", "item_name_to_values"): "BTreeMap", ("ListDefinitionsOrigin", "lists"): "BTreeMap"}


def check(ctx):
    q = Q(ctx)
    A = fresh(ctx.world.A["bladeink"])
    C = fresh(ctx.world.A["bladeink_compiler"])
    X = ctx.expect
    H, S, T, D, B, O, K = "hash-order", "sources", "clock", "seeding", "builds", "ordered", "random"
    ctx.rule(H, "every walk over a hash table is one whose result does not depend on the order, and compiling makes none into its output")
    ctx.rule(S, "the system's random numbers only give a new story its seed, the clock only limits a time-limited continue; no other source outside program, seed and calls is read, no state outlives a story")
    ctx.rule(T, "the clock decides nothing but whether a time-limited continue pauses")
    ctx.rule(D, "every generator is seeded from story seed, random history and position alone; SEED_RANDOM and saves set both")
    ctx.rule(B, "no code depends on the build profile")
    ctx.rule(O, "list items and definitions are kept in ordered collections with an order over name and origin")
    ctx.rule(K, "the functions that draw random numbers or order lists do so under the reviewed conditions")

    hash_order(ctx, A, H, WALKS)
    hash_order(ctx, C, H, {"ValidationContext::build": "into an ordered set"})
    ctx.count("functions scanned", len(A.crate.bodies) + len(C.crate.bodies), 1200, H)

    # sources
    n = 0
    for Z, crate in ((A, "bladeink"), (C, "bladeink_compiler")):
        for p, b in sorted(Z.crate.bodies.items()):
            root = short(p.split("::{closure")[0])
            rb = Z.crate.bodies.get(p.split("::{closure")[0], b)
            own = {root} if Z.I.is_known(rb) else set(callers(Z, root)) or {root}
            for i in b.reach:
                t = b.blocks[i]["t"]
                if t[0] == "call" and isinstance(t[1], dict):
                    n += 1
                    for c in {t[1].get("r") or "", t[1].get("p") or ""}:
                        for pat, what, ok in SOURCES:
                            if re.search(pat, c):
                                if crate == "bladeink_compiler" and "LocalKey" in c and own <= {"Nesting::enter", "<Nesting as Drop>::drop"}:
                                    continue
                                X(S, own <= ok, f"{root}:{c[:60]}", f"{root} reads {what} through {c}", f"{b.file}:{b.line}")
                for st in b.blocks[i]["s"]:
                    if st[0] == "=" and isinstance(st[2], list) and st[2][0] == "cast" and re.search(r"PointerExpose|PtrToInt|FnPtrToInt", str(st[2])):
                        ctx.fail(S, f"{root}:address", f"{root} turns an address into a number", f"{b.file}:{b.line}")
    ctx.count("calls scanned", n, 8000, S)
    N = q.need("StoryState::new", S)
    if N:
        v = [fields_of(v).get("story_seed", "") for t, v, f in N.sites("^return$")]
        X(S, v and all(re.search(r"random_range|^p3$", x) for x in v), "seed-init", f"a new story's seed is {v}", N.at)

    # clock
    E = q.need("Story::continue_internal", T)
    if E:
        for t, v, f in E.sites(r"^(set|mut|call) "):
            if re.search(r"Instant|elapsed|as_millis", v):
                ctx.fail(T, f"clock:{t}", f"{t} is given a value of the clock", E.at)

    # seeding
    SEED = {"Story::perform_logic_and_flow_control": r"i32::wrapping_add\((p1\.state\.story_seed,\s*p1\.state\.previous_random|p1\.state\.previous_random,\s*p1\.state\.story_seed)\)",
            "Story::next_sequence_shuffle_index": r"story_seed"}
    for fn, pat in SEED.items():
        E = q.need(fn, D)
        if not E:
            continue
        texts = {contract.full(v) for t, v, _ in E.sites("") for _ in [0]} | {contract.full(a) for a in E.atoms("seed_from_u64")}
        seeds = set()
        for x in texts:
            for m in re.finditer(r"seed_from_u64\(", x):
                d, j = 1, m.end()
                while j < len(x) and d:
                    d += {"(": 1, ")": -1}.get(x[j], 0)
                    j += 1
                seeds.add(x[m.end():j - 1])
        X(D, seeds, f"{fn}:seeded", f"{fn} seeds no generator", E.at)
        for s in sorted(seeds):
            if "…" in s:
                continue
            X(D, re.search(pat, s) is not None, f"{fn}:seed:{s[:60]}", f"{fn} seeds a generator from {s[:160]}", E.at)
    q.subset(D, writers(A, r"^set StoryState\.previous_random$"), {"Story::perform_logic_and_flow_control", "StoryState::load_json_obj", "StoryState::copy_and_start_patching", "Story::set_story_seed"}, "previous_random", "the random history is changed by")
    q.subset(D, writers(A, r"^set StoryState\.story_seed$"), {"Story::perform_logic_and_flow_control", "StoryState::load_json_obj", "StoryState::copy_and_start_patching", "Story::set_story_seed"}, "story_seed", "the seed is changed by")
    E = q.need("Story::perform_logic_and_flow_control", D)
    if E:
        prev = E.sites(r"^set StoryState\.previous_random$")
        for t, v, f in prev:
            X(D, re.match(r"^0$|^i32::wrapping_add\(p1\.state\.previous_random,1\)$|^RngExt::random\(", v) is not None, f"history:{v[:40]}", f"the random history becomes {v[:120]}", E.at)
        rnd = E.lit(r"^dc<ControlCommand>\(p2\)\.command_type is Random$")
        sr = E.lit(r"^dc<ControlCommand>\(p2\)\.command_type is SeedRandom$")
        adv = E.when(r"^set StoryState\.previous_random$", r"^i32::wrapping_add")
        q.implies(D, E, adv, "advance:random", "the history advances without RANDOM", rnd)
        q.implies(D, E, E.when(r"^set StoryState\.(previous_random|story_seed)$", r"^0$|^φ|try_into"), "seed:command", "the seed is set without SEED_RANDOM", sr)
        q.same(D, E, E.when(r"^set StoryState\.story_seed$"), E.when(r"^set StoryState\.previous_random$", "^0$"), "seed:both", "SEED_RANDOM sets only one of seed and history")

    # build profile
    src = 0
    for root in ("runtime/src", "compiler/src", "rinklecate/src"):
        for f in sorted(glob.glob(os.path.join(REPO, root, "**", "*.rs"), recursive=True)):
            src += 1
            for i, line in enumerate(open(f, encoding="utf-8"), 1):
                code = line.split("//")[0]
                m = re.search(r"\b(debug_assert(_eq|_ne)?!|debug_assertions|overflow_checks|cfg!\s*\((?!\s*feature)|target_pointer_width|target_os|target_arch)", code)
                if m:
                    rel = os.path.relpath(f, REPO)
                    ctx.fail(B, f"{os.path.basename(f)}:{m[1]}", f"{m[1]} makes the code depend on the build", f"{rel}:{i}")
    ctx.count("source files scanned", src, 60, B)
    ctx.ok(B, f"{src} files")

    # ordered collections
    for (adt, f), ty in ORDERED.items():
        fs = ftypes(A, adt)
        if f in fs:
            X(O, ty in fs[f], f"{adt}.{f}", f"{adt}.{f} is a {fs[f]}")
    n = sum(1 for (adt, f) in ORDERED if f in ftypes(A, adt))
    ctx.count("ordered fields", n, 3, O)
    b = contract.keys(A).get("VariablesState::complete_variable_observation")
    X(O, b is not None and "BTreeMap" in b.locals[0][0], "observation", "the variables to notify are not in an ordered collection", f"{b.file}:{b.line}" if b else None)

    contracts(ctx, K, "bladeink", [r"^Story::(next_sequence_shuffle_index|set_story_seed)$", r"^InkList::(get_ordered_items|get_max_item|get_min_item|max_as_list|min_as_list|from_single_origin|get_origin_names)$", r"^<InkListItem as (Ord|PartialOrd|PartialEq|Hash)>::", r"^<InkList as Display>::fmt$", r"^ListDefinition::(new|get_items)$"], 12, text=ctx.rules[K]["text"])


def ftypes(A, name):
    for p, a in A.crate.adts.items():
        if p.split("::")[-1] == name:
            return {f[0]: str(f[1:]) for f in a["variants"][0][2]}
    return {}
