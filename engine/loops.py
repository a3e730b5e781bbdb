"""Loops that can go round without consuming anything: every cycle of the control flow graph must pass a step
that makes progress (an iterator's next, a reader consuming input, a counter moved on, a text or slice replaced by
a part of itself, a collection made smaller).  A call of a function that progresses only when it succeeds counts on
the edge on which it succeeded."""
import re

from names import short

STEP = r"(Iterator::(next|next_back)|::(next|next_back|next_if|advance_by)|Read>?::read(_exact|_to_end)?|\bVec::<.*>::(pop|remove|truncate|clear|drain|swap_remove)|VecDeque.*::pop_(front|back)|String::(pop|remove|truncate)|hash_map::.*::remove|Option::<.*>::take)$"
PART = r"(Index(Mut)?(<.*>)?>?::index(_mut)?|::get|::strip_prefix|::strip_suffix|::split_at|::split_once|::split_first|::split_last|::first|::last)$"


def _operands(rv):
    """(local, projections) used by an rvalue"""
    if not isinstance(rv, list):
        return
    for e in rv[1:] if rv and isinstance(rv[0], str) else rv:
        if isinstance(e, list) and e and isinstance(e[0], int) and all(x == "*" or isinstance(x, list) for x in e[1:]):
            yield e[0], e[1:]
        elif isinstance(e, list):
            yield from _operands(e)


class Progress:
    def __init__(self, A, step=STEP, fields=(), dyn=None, known=None):
        """known: name -> kind, decided elsewhere; fields: names whose every store is progress; dyn: (regex on the callee of a dynamic call, body it stands for)"""
        self.A, self.step, self.fields, self.dyn = A, re.compile(step), fields, dyn
        self.memo, self.cnt = {}, {}
        for p in A.crate.bodies:
            if short(p) in (known or {}):
                self.memo[p] = known[short(p)]

    # ---- steps inside one body
    def counters(self, b):
        """block -> True when what is moved on belongs to the caller too"""
        if b.path in self.cnt:
            return self.cnt[b.path]
        src = {}
        for i in b.reach:
            for st in b.blocks[i]["s"]:
                if st[0] == "=":
                    src.setdefault(st[1][0], []).append((list(_operands(st[2])), bool(isinstance(st[2], list) and re.match(r"Add|Sub|Shr|Div", str(st[2][1] if len(st[2]) > 1 else ""))), i, st[1]))
            t = b.blocks[i]["t"]
            if t[0] == "call" and isinstance(t[1], dict):
                p = t[1].get("r") or t[1].get("p") or ""
                mv = bool(re.search(PART, re.sub(r"::<.*?>(?=::\w+$)", "", p)) or re.search(PART, t[1].get("p") or ""))
                src.setdefault(t[3][0], []).append(([o for a in t[2] for o in _operands([None, a])], mv, i, t[3]))

        def moves(x, on, seen, moved):
            for ops, mv, _, _ in src.get(x, []):
                for o, pr in ops:
                    m = moved or mv or any(isinstance(e, list) and e[0] in ("f", "ss", "c") and x != on for e in pr)
                    if o == on:
                        if m:
                            return True
                    elif o > b.nargs and o not in seen and moves(o, on, seen | {o}, m):
                        return True
            return False
        out = {}
        for x, defs in src.items():
            for ops, mv, i, pl in defs:
                for o, pr in ops:
                    if (o == x and mv) or (o != x and o > b.nargs and moves(o, x, {o}, mv)):
                        out[i] = out.get(i, False) or (x <= b.nargs and len(pl) > 1 and pl[1] == "*")
        self.cnt[b.path] = out
        return out

    def callee(self, t):
        c = t[1] if t[0] == "call" and isinstance(t[1], dict) else None
        if c is None:
            return None, []
        p = c.get("r") or c.get("p") or ""
        b = self.A.crate.bodies.get(p)
        if b is None and self.dyn and re.search(self.dyn[0], c.get("p") or ""):
            b = self.A.crate.bodies.get(self.dyn[1])
        return b, [p, c.get("p") or ""]

    def graph(self, b, local=True):
        """(blocks that are progress, edges that are)"""
        cut, edges = set(), set()
        for i, mine in self.counters(b).items():
            if local or mine:
                cut.add(i)
        for i in b.reach:
            bl = b.blocks[i]
            t = bl["t"]
            if t[0] == "call":
                cb, p = self.callee(t)
                if any(self.step.search(x) for x in p):
                    cut.add(i)
                elif cb is not None:
                    k = self.kind(cb)
                    if k == "always":
                        cut.add(i)
                    elif k == "success":
                        e = self.success_edges(b, i)
                        if e is None:
                            cut.add(i)
                        else:
                            edges |= e
            for st in bl["s"]:
                if st[0] == "=" and any(isinstance(e, list) and len(e) > 2 and e[0] == "f" and e[2] in self.fields for e in st[1][1:]):
                    cut.add(i)
        return cut, edges

    def success_edges(self, b, i):
        """edges taken when the call that ends block i succeeded; None when its result is not tested at once"""
        d, nxt = b.blocks[i]["t"][3][0], b.blocks[i]["t"][4]
        dis = None
        for _ in range(6):
            if nxt is None:
                return None
            bl = b.blocks[nxt]
            for st in bl["s"]:
                if st[0] != "=":
                    continue
                ops = [o for o, _ in _operands(st[2])]
                if d in ops and st[2][0] == "disc":
                    dis = st[1][0]
                    names = dict((n, v) for v, n in st[2][3]) if len(st[2]) > 3 else {}
                elif d in ops and st[2][0] == "use":
                    d = st[1][0]
            t = bl["t"]
            if t[0] == "switch":
                on = t[1][1][0] if isinstance(t[1], list) and isinstance(t[1][1], list) else None
                if dis is not None and on == dis:
                    good = {names.get(n) for n in ("Some", "Ok", "Continue", "Break") if n in names and not (n == "Break" and "Continue" in names)}
                    hit = {tg for v, tg in t[2] if v in good}
                    if not hit and len(t) > 3:
                        hit = {t[3]} if good - {v for v, _ in t[2]} else set()
                    return {(nxt, h) for h in hit}
                if on == d:
                    return {(nxt, s) for s in b.succs[nxt] if s not in {tg for v, tg in t[2] if v == 0}}
                return None
            if t[0] == "call" and isinstance(t[1], dict) and (t[1].get("p") or "").endswith("Try::branch") and any(o == d for a in t[2] for o, _ in _operands([None, a])):
                d, nxt = t[3][0], t[4]
            elif t[0] == "goto":
                nxt = t[1]
            elif t[0] == "drop":
                nxt = b.succs[nxt][0] if b.succs[nxt] else None
            else:
                return None
        return None

    def kind(self, b):
        """always: every path to the end progresses; success: every path that does not end in Err, None or false does"""
        if b.path in self.memo:
            return self.memo[b.path]
        self.memo[b.path] = None
        cut, edges = self.graph(b, local=False)
        # a path: (block, has failed)
        res = "always"
        seen, st = set(), [(0, False)]
        while st:
            x, bad = st.pop()
            if (x, bad) in seen or x in cut:
                continue
            seen.add((x, bad))
            for s in b.blocks[x]["s"]:
                if s[0] == "=" and s[1] == [0]:
                    bad = self.failure(s[2])
            t = b.blocks[x]["t"]
            if t[0] == "call" and t[3] == [0]:
                bad = isinstance(t[1], dict) and (t[1].get("p") or "").endswith("from_residual")
                cb, _ = self.callee(t)
                if cb is not None and self.kind(cb) == "success":
                    bad = True
            if t[0] == "ret":
                if not bad:
                    res = None
                    break
                res = "success"
            st += [(s, bad) for s in b.succs[x] if (x, s) not in edges]
        self.memo[b.path] = res
        return res

    @staticmethod
    def failure(rv):
        if rv[0] == "agg" and rv[2:4] and (rv[3] in ("Err", "None")):
            return True
        if rv[0] == "use" and rv[1][0] == "k" and re.search(r"'v': False|::None\b", str(rv[1])):
            return True
        return False

    def idle(self, b):
        """cycles without progress: (line, blocks)"""
        cut, edges = self.graph(b)
        S = {i for i in b.reach if i not in cut}
        succ = {i: [s for s in b.succs[i] if s in S and (i, s) not in edges] for i in S}
        live = set(S)
        while True:
            dead = {i for i in live if not any(s in live for s in succ[i])}
            dead |= live - {s for i in live for s in succ[i] if s in live}
            if not dead:
                break
            live -= dead
        out, seen = [], set()
        for i in sorted(live):
            f = _reach(i, succ, live)
            if i in seen or i not in f:
                continue
            comp = {j for j in f if i in _reach(j, succ, live)}
            seen |= comp
            lines = [x for j in comp for x in ([st[-1] for st in b.blocks[j]["s"]] + [x for x in b.blocks[j]["t"][2:] if isinstance(x, int)]) if isinstance(x, int) and x >= b.line]
            out.append((min(lines) if lines else b.line, comp))
        return out

    def loops(self, b):
        succ = {i: b.succs[i] for i in b.reach}
        return sum(1 for i in b.reach for s in b.succs[i] if s <= i and i in _reach(s, succ, b.reach) | {s})


def _reach(i, succ, live):
    seen, st = set(), [s for s in succ[i] if s in live]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st += [s for s in succ[x] if s in live]
    return seen
