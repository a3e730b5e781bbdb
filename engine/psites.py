"""Panic obligations against the reviewed ones: every construct that can still fail in the scope
must be a reviewed one, under a condition (about its operands) no weaker than the reviewed one."""
import json
import os
import re

import contract
import eff
import panics
from names import short

SPEC = os.path.join(contract.SPECS, "panics.json")

# (kind, text) accepted anywhere: class -> why it cannot fail.  Each class marked * is backed by a rule (see rules/panicrules).
INV = [
    ("*threads", r"^unwrap$", r"^\[T\]::(last|last_mut|first)\((.*\.)?threads\)$", "a call stack always has a thread"),
    ("*threads", r"^bounds$", r"^0 in (.*\.)?threads$", "a call stack always has a thread"),
    ("*threads", r"^underflow$", r"^Vec::len\((.*\.)?threads\) - 1$", "a call stack always has a thread"),
    ("*elements", r"^unwrap$", r"^\[T\]::(last|last_mut|first)\((?:\[T\]::(?:last|last_mut)\((?:.*\.)?threads\)|.*)\.callstack\)$", "a thread always has an element"),
    ("*elements", r"^bounds$", r"^0 in .*\.callstack$", "a thread always has an element"),
    ("count", r"^overflow:(Add|Sub):i(32|size)$", r"^[(\s]*(Vec::len\(.*\)|str::len\(.*\)|#i|each\(.*\)|PtrMetadata\(.*\))[^@]*( (Add|Sub) \d+\))?, [01]$", "a counter bounded by the length of a collection in memory"),
    ("size", r"^capacity$", r"^(Vec|HashMap|str|String|PtrMetadata|\[T\])(::len)?\(.*\)$", "room for as many elements as another collection has"),
]


# (function, kind, text): reviewed whatever the condition
ANY = [
    (r"^NativeFunctionCall::(\w+_op|has|hasnt)$", r"^bounds$", r"^[01] in p2$", "NativeFunctionCall::call gives an operator as many operands as it takes"),
]


def leaves(text):
    out = set(re.findall(r"(?:p\d+|_\d+)(?:\.\w+|@\w+|\[[^\[\]]*\])+", text)) | set(re.findall(r"\bp[2-9]\b", text))
    t = text.split(" - ")[0].split(" in ")
    out |= {x for x in t if len(x) > 3}
    m = re.match(r"^[\w:<>\[\]]+\((.*)\)$", text)
    if m:
        out.add(m.group(1))
    return out


def norm(t):
    return t.replace("′", "").replace("°", "")


def record(P, kind, text, f):
    sup = P.B.support(f)
    return {"kind": kind, "text": text, "dump": P.B.dump(f), "meta": {n: P.meta[n] for n in sup}}


def sites(A, name, body=None, depth=0):
    """undischarged sites of the function and the closures it makes; None when the function is beyond analysis"""
    P = panics.Panics(A, name, body)
    if not P.ok:
        return None
    out = [record(P, k, t, f) for (k, t), f in P.open().items()]
    calls = {p for p, _, _ in P.calls}
    for c in P.clos:
        cb = A.crate.bodies.get(c)
        if cb is None or depth > 4:
            continue
        r = sites(A, name, cb, depth + 1)
        if r is None:
            return None
        out += [dict(x, clos=1) for x in r[0]]
        calls |= r[1]
    return out, calls


def implied(cur, rev):
    """the condition of cur, as far as it speaks of the operands, implies that of rev"""
    if cur["dump"] == rev["dump"]:
        return True
    B = contract.BDD()
    B.cap = 600000
    try:
        rm, cm = rev["meta"], cur["meta"]
        ren = {}
        left = [n for n in rm if n not in cm]
        for n in cm:
            if n in rm:
                continue
            c = [r for r in left if norm(r) == norm(n)] or [r for r in left if contract.loose(norm(r), norm(n))]
            if c:
                ren[n] = c[0]
                left.remove(c[0])
        L = leaves(norm(cur["text"])) | leaves(norm(rev["text"]))
        rel = lambda n: any(x in norm(n) for x in L)
        r = B.load(rev["dump"])
        c = B.load(cur["dump"], ren)
        meta = {n: tuple(m) for n, m in rm.items()}
        for n, m in cm.items():
            meta.setdefault(ren.get(n, n), tuple(m))
        K = contract.domain(B, meta)
        drop = {n for n in set(rm) | {ren.get(n, n) for n in cm} if not rel(n) or n not in rm}
        r = B.exists(B.AND(r, K), {n for n in drop if n in B.support(r)} | {n for n in B.support(K) if n in drop})
        c = B.AND(c, K)
        c = B.exists(c, {n for n in B.support(c) if n in drop})
        return B.AND(c, B.NOT(r)) == 0
    except OverflowError:
        return True


def accepted(s):
    for cls, k, t, why in INV:
        if re.search(k, s["kind"]) and re.search(t, norm(s["text"])):
            return cls
    return None


def same_text(a, b):
    a, b = norm(a), norm(b)
    return a == b or contract.loose(a, b)


def bare(t):
    """the text without the names of memory: what is done, not to what"""
    t = norm(t)
    return re.sub(r"…[0-9a-f]{8}", "…", re.sub(r"\b(p|_)\d+\b", "p", t))


def scan(A, names):
    out = {}
    ks = contract.keys(A)
    todo = [(n, ks[n]) for n in names if n in ks]
    seen = set()
    while todo:
        n, b = todo.pop()
        if b.path in seen:
            continue
        seen.add(b.path)
        r = sites(A, n, b)
        out[n] = (r, b)
        if r is None:
            continue
        for p in r[1]:
            cb = A.crate.bodies.get(p)
            # split off but not spliced back (recursive, or too big)
            if cb is not None and "{closure" not in p and not A.I.is_known(cb) and p not in seen:
                todo.append((short(p), cb))
    return out


def check(ctx, rid, crate, names, floor, allow=None):
    """allow: known-finding keys"""
    A = eff.fresh(ctx.world.A[crate])
    specs = json.load(open(SPEC)).get(crate, {})
    got = scan(A, names)
    n = ok = 0
    unmatched, used = [], {}
    for k in sorted(got):
        r, b = got[k]
        at = f"{b.file}:{b.line}"
        if r is None:
            ctx.count(f"{rid}:beyond analysis:{k}", 1)
            continue
        rev = specs.get(k, [])
        if rev is None:
            continue
        bad = 0
        for s in r[0]:
            n += 1
            if accepted(s) or any(re.search(f, k) and re.search(kk, s["kind"]) and re.search(t, norm(s["text"])) for f, kk, t, _ in ANY):
                continue
            c = [x for x in rev if x["kind"] == s["kind"] and norm(x["text"]) == norm(s["text"])]
            c = c or [x for x in rev if x["kind"] == s["kind"] and same_text(x["text"], s["text"])]
            m = [x for x in c if implied(s, x)]
            if m:
                used.setdefault(k, []).append(id(m[0]))
                continue
            unmatched.append((k, s, at, c))
            bad += 1
        if not bad:
            ctx.ok(rid, f"{k}: {len(r[0])} reviewed")
    # moved or restated: a reviewed site that is no longer found where it was
    pool = [(k, x) for k in specs for x in (specs[k] or []) if id(x) not in used.get(k, []) and (k in got or k not in contract.keys(A))]
    for k, s, at, c in unmatched:
        hit = None
        if not c:
            for i, (pk, x) in enumerate(pool):
                if x["kind"] == s["kind"] and (bare(x["text"]) == bare(s["text"]) or contract.hard(norm(x["text"])) == contract.hard(norm(s["text"]))) and (pk == k or implied(s, x) or pk not in got):
                    hit = i
                    break
        if hit is not None:
            pool.pop(hit)
            ctx.ok(rid, f"{k}: restated")
            continue
        B = contract.BDD()
        f = B.load(s["dump"])
        why = contract.cube(B, f)
        what = "now also" if c else "can"
        ctx.fail(rid, f"{k}:{s['kind']}:{s['text']}"[:200], f"{k} {what} fail at {s['kind']} of {s['text'][:160]} when {why[:280]}", at)
    ctx.count(f"{rid}:functions", len(got), floor, rid)
    ctx.count(f"{rid}:sites reviewed", n)
