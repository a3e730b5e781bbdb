"""Places where a function can panic, with the exact condition of doing so.

Every construct with a panicking case (unwrap/expect, indexing and slicing, checked or
trapping arithmetic, explicit panics, collection calls with preconditions) of a function
with its unknown helpers spliced in gets the formula: this block is reached and the
construct fails.  Unsatisfiable ones are discharged; the rest are obligations that must be
among the reviewed ones, under a condition no weaker than the reviewed one.
"""
import re
from names import short
from terms import cname, walk
import contract

UNWRAP = {"Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect"}
UNWRAP_ERR = {"Result::unwrap_err", "Result::expect_err"}
PANIC = {"panicking::panic_fmt", "panicking::panic", "panicking::panic_default_msg", "panicking::assert_failed", "panicking::unreachable_default_msg", "panicking::panic_display", "panicking::unreachable_display",
         "panicking::panic_explicit", "panicking::panic_nounwind", "option::expect_failed", "result::unwrap_failed", "rt::begin_panic", "panicking::todo", "panicking::panic_str_2015", "process::abort", "panicking::assert_failed_inner",
         "process::exit", "hint::unreachable_unchecked", "intrinsics::abort", "panic::resume_unwind", "panic::panic_any"}
# index-like calls of std: (receiver, index) and the comparison that fails
AT = {"remove": "lt", "swap_remove": "lt", "insert": "le", "split_off": "le", "split_at": "le", "split_at_mut": "le", "swap": "lt", "insert_str": "le", "split_at_checked": None, "rotate_left": "le", "rotate_right": "le"}
SEQ = ("Vec", "[T]", "VecDeque", "String", "str")
RANGED = {"drain", "replace_range", "copy_within", "splice", "extend_from_within"}
NUM = r"^&?(i8|i16|i32|i64|i128|isize|u8|u16|u32|u64|u128|usize)$"


class Panics:
    def __init__(self, A, name, body=None):
        A = self.A = __import__("eff").fresh(A)
        self.name = name
        b = self.body = body or contract.keys(A).get(name)
        self.ok = b is not None
        self.found = []         # (kind, text, formula, block)
        self.calls = []         # (callee path, formula, arg texts)
        if not self.ok:
            return
        C = contract.contracts_of(A)
        ib = C.view(b)
        for loc in (False, True):
            s = self.s = contract.Summ(A, ib, C, loc)
            s.B.cap = 1500000
            try:
                self.scan()
                break
            except OverflowError:
                self.found, self.calls = [], []
        else:
            self.ok = False
            return
        self.B = s.B
        self.meta = s.meta
        self.K = s.B.AND(contract.domain(s.B, s.meta), self.lengths())
        self.clos = []
        for x in s.ib.reach:
            for st in s.ib.blocks[x]["s"]:
                if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "closure":
                    self.clos.append(st[2][2])

    def lengths(self):
        """how tests of one length relate"""
        B, K = self.s.B, 1
        g = {}
        for n, m in self.s.meta.items():
            x = re.fullmatch(r"(-?\d+) < (?:Vec|str|String|HashMap|PtrMetadata|Map)(?:::len)?\((.*)\)(′?)", n)
            if m[0] == "lt" and x:
                g.setdefault(x.group(2) + x.group(3), []).append((int(x.group(1)), n))
        for q, l in g.items():
            l.sort()
            for (a, n), (c, k) in zip(l, l[1:]):
                K = B.AND(K, B.OR(B.NOT(B.var(k)), B.var(n)))
            e = f"empty({q})" if not q.endswith("′") else f"empty({q[:-1]})′"
            if e in self.s.meta and l[0][0] >= 0:
                K = B.AND(K, B.NOT(B.AND(B.var(l[0][1]), B.var(e))))
        return K

    def infallible(self, x):
        """a conversion that cannot fail for the type it is used with"""
        while x[0] == "clone":
            x = x[1]
        if x[0] == "call" and len(x) > 3 and x[1].split("::")[-1] in ("to_value", "write_str", "write_char", "write_fmt"):
            f = self.A.E.call_at(x[3])
            if f is None:
                return False
            ga = " ".join(f.get("ga") or [])
            if x[1].endswith("to_value"):
                return not re.search(r"::(?!(string|vec|collections|option|rc|alloc|std)\b)", ga.replace("std::string::", "").replace("std::vec::", "").replace("std::alloc::", ""))
            return "String" in (f.get("p", "") + f.get("r", "") + ga) or x[1].startswith("String")
        return False

    def seqname(self, t):
        m = re.fullmatch(r"(?:PtrMetadata|Vec::len)\((.*)\)", t)
        return m.group(1) if m else t

    def outside(self, i, ln):
        """index i is not below the length ln"""
        s, B = self.s, self.s.B
        if i[0] == "const" and ln[0] == "const" and isinstance(ln[2], int) and isinstance(i[2], int):
            return 0 if i[2] < ln[2] else 1
        ti, tl = s.canon(i), s.canon(ln)
        q = self.seqname(tl)
        m = re.fullmatch(r"\((?:Vec::len|PtrMetadata|str::len)\((.*)\) Sub (\d+)\)", ti)
        if m and m.group(1) == q and int(m.group(2)) > 0:
            # below the length exactly when the subtraction itself is possible
            k = int(m.group(2))
            return s.atom("true", f"empty({q})") if k == 1 else B.NOT(s.atom("lt", str(k - 1), f"Vec::len({q})"))
        if tl.startswith("PtrMetadata("):
            ln = ("call", "Vec::len", (ln[2] if ln[0] == "un" else ln[2][0],)) if ln[0] in ("un", "call") else ln
        return B.NOT(s.ltf(i, ln))

    def ty(self, o):
        ib = self.s.ib
        if o[0] in "cm":
            pl = o[1]
            t = ib.local_ty(pl[0])
            for e in pl[1:]:
                if e == "*":
                    t = t.lstrip("&").removeprefix("mut ")
                elif e[0] == "f":
                    t = e[-1] if isinstance(e[-1], str) else ""
            return t
        return str(o[1].get("ty", "")) if isinstance(o[1], dict) else ""

    def scan(self):
        s = self.s
        ib, B, T = s.ib, s.B, s.T
        for b in s.rpo:
            bl = ib.blocks[b]
            t = bl["t"]
            pos = (b, len(bl["s"]))
            if t[0] == "assert":
                k = t[3]
                if k.startswith("other") or k.startswith("resumed"):
                    continue
                s.curp = b
                c = s.cond(b)
                ops = [T.op(ib, a, pos) for a in t[4]]
                tx = [s.canon(o) for o in ops]
                if k == "bounds":
                    self.add(k, f"{tx[1]} in {self.seqname(tx[0])}", c, lambda: self.outside(ops[1], ops[0]), b)
                elif k in ("remzero", "divzero"):
                    # asserted operand is the divisor's test
                    d = self.divisor(b, t, pos)
                    self.add(k, s.canon(d) if d else tx[0], c, (lambda: s.eqf(d, ("const", "", 0))) if d else None, b)
                elif k.startswith("overflow"):
                    op = k.split(":")[1]
                    ty = self.opty(b, t)
                    unsig = ty.startswith("u")
                    if op == "Add" and ty in ("usize", "u64", "isize", "i64"):
                        continue
                    if op == "Sub" and unsig:
                        self.add(f"underflow", f"{tx[0]} - {tx[1]}", c, lambda: s.ltf(ops[0], ops[1]), b)
                    elif op in ("Div", "Rem") :
                        self.add(f"overflow:{op}:{ty}", f"{tx}", c, None, b)
                    else:
                        self.add(f"overflow:{op}:{ty}", ", ".join(tx), c, None, b)
                else:
                    self.add(k, ", ".join(tx), c, None, b)
            elif t[0] == "call" and "ind" not in t[1]:
                n, r = cname(t[1])
                last = r.split("::")[-1]
                a = t[2]
                s.curp = b
                term = lambda i: T.op(ib, a[i], pos)
                if r in UNWRAP or n in UNWRAP:
                    c = s.cond(b)
                    x = term(0)
                    if self.infallible(x):
                        self.add("unwrap", s.canon(x), 0, None, b)
                    else:
                        self.add("unwrap", s.canon(x), c, lambda: B.NOT(s.isop(a[0], pos, "S", 2, 0)), b)
                elif r in UNWRAP_ERR:
                    self.add("unwrap_err", s.canon(term(0)), s.cond(b), lambda: s.isop(a[0], pos, "S", 2, 0), b)
                elif r in PANIC or n in PANIC or (t[4] is None and r.startswith("panicking::")):
                    self.add("panic" if "exit" not in r else "exit", r.split("::")[-1], s.cond(b), None, b)
                elif last in ("index", "index_mut") and ("Index" in r or "Index" in n):
                    rt = re.sub(r"^<(.*?) as .*", r"\1", r)
                    it = self.ty(a[1])
                    x, i = term(0), term(1)
                    kind = "index" if last == "index" else "index_mut"
                    if "Value" in rt and last == "index":
                        continue        # serde_json gives Null
                    if i[0] == "agg" and "Range" in i[2]:
                        self.slice(rt, x, i, s.cond(b), b)
                    elif "Map" in rt:
                        self.add("key", s.get(x, i), s.cond(b), lambda: B.NOT(s.atom("is", s.get(x, i), "S", 2)), b)
                    else:
                        self.add("bounds", f"{s.canon(i)} in {s.canon(x)}", s.cond(b), lambda: self.outside(i, ("call", "Vec::len", (x,))) if not s.canon(i).startswith("Range") else 1, b)
                elif last in AT and AT[last] and r.split("::")[0] in SEQ and len(a) >= 2:
                    x, i = term(0), term(1)
                    ln = ("call", "Vec::len", (x,))
                    if last == "swap":
                        self.add("at:swap", f"{s.canon(x)}", s.cond(b), None, b)
                    elif AT[last] == "lt":
                        self.add(f"at:{last}", f"{s.canon(i)} in {s.canon(x)}", s.cond(b), lambda: self.outside(i, ln), b)
                    else:
                        self.add(f"at:{last}", f"{s.canon(i)} in {s.canon(x)}", s.cond(b), (lambda: s.ltf(ln, i)) if not (i[0] == "const" and i[2] == 0) else (lambda: 0), b)
                elif last in RANGED and r.split("::")[0] in SEQ and len(a) >= 2:
                    self.slice(r, term(0), term(1), s.cond(b), b, f"at:{last}")
                elif last in ("copy_from_slice", "clone_from_slice"):
                    self.add(f"at:{last}", s.canon(term(0)), s.cond(b), None, b)
                elif last in ("chunks", "windows", "step_by", "chunks_exact", "rchunks") and len(a) == 2:
                    self.add(last, s.canon(term(1)), s.cond(b), lambda: s.eqf(term(1), ("const", "", 0)), b)
                elif last in ("add", "sub", "mul", "neg", "div", "rem", "shl", "shr", "add_assign", "sub_assign", "mul_assign", "div_assign", "rem_assign") and re.search(r"<&?(?:mut )?[iu](8|16|32|64|128|size)\b", r):
                    if last in ("div", "rem", "div_assign", "rem_assign"):
                        self.add("divzero", s.canon(term(1)), s.cond(b), lambda: s.eqf(term(1), ("const", "", 0)), b)
                    ty = re.search(r"[iu](8|16|32|64|128|size)\b", r).group(0)
                    self.add(f"overflow:{last}:{ty}", ", ".join(s.canon(term(k)) for k in range(len(a))), s.cond(b), None, b)
                elif last in ("wrapping_div", "wrapping_rem", "overflowing_div", "overflowing_rem", "wrapping_div_euclid", "wrapping_rem_euclid") and len(a) == 2:
                    self.add("divzero", s.canon(term(1)), s.cond(b), lambda: s.eqf(term(1), ("const", "", 0)), b)
                elif last == "clamp" and len(a) == 3:
                    lo, hi = term(1), term(2)
                    if not (lo[0] == hi[0] == "const" and isinstance(lo[2], (int, float)) and isinstance(hi[2], (int, float)) and lo[2] <= hi[2]):
                        self.add("clamp", f"{s.canon(lo)}, {s.canon(hi)}", s.cond(b), lambda: s.ltf(hi, lo), b)
                elif last in ("pow", "abs", "div_euclid", "rem_euclid", "next_power_of_two", "ilog2", "ilog10", "isqrt", "ilog") and re.search(r"(^|<impl |::)[iu](8|16|32|64|128|size)\b|num::", r):
                    self.add(f"overflow:{last}", ", ".join(s.canon(term(k)) for k in range(len(a))), s.cond(b), None, b)
                elif last in ("sum", "product") and "Iterator" in n:
                    ty = (t[1].get("ga") or [""])[-1]
                    if re.search(r"\b[iu](8|16|32)\b", " ".join(t[1].get("ga") or [])):
                        self.add(f"overflow:{last}", s.canon(term(0)), s.cond(b), None, b)
                elif last in ("random_range", "gen_range"):
                    self.add("range", s.canon(term(1)), s.cond(b), None, b)
                elif last in ("sort_by", "sort_unstable_by", "sort_by_key", "sort_unstable_by_key", "binary_search_by"):
                    pass
                elif last == "repeat" and r.split("::")[0] in ("str", "[T]"):
                    self.add("capacity", s.canon(term(1)), s.cond(b), None, b)
                elif last in ("with_capacity", "reserve", "resize", "from_elem"):
                    x = term(0 if last == "with_capacity" else 1)
                    if x[0] != "const":
                        self.add("capacity", s.canon(x), s.cond(b), None, b)
                elif last in ("from_digit",):
                    self.add("radix", s.canon(term(1)), s.cond(b), None, b)
                elif last == "unwrap_unchecked":
                    self.add("unchecked", s.canon(term(0)), s.cond(b), None, b)
                else:
                    x = self.A.crate.bodies.get(t[1].get("r") or t[1].get("p") or "")
                    if x is not None:
                        self.calls.append((x.path, s.cond(b), [s.canon(term(k)) for k in range(len(a))]))

    def opty(self, b, t):
        """type of the operands of the checked operation asserted"""
        for x in t[4]:
            ty = self.ty(x)
            m = re.search(r"[iu](8|16|32|64|128|size)\b", ty)
            if m:
                return m.group(0)
        # the checked operation itself
        for st in reversed(self.s.ib.blocks[b]["s"]):
            if st[0] == "=" and st[2][0] == "bin" and "WithOverflow" in st[2][1]:
                for o in st[2][2:4]:
                    m = re.search(r"[iu](8|16|32|64|128|size)\b", self.ty(o))
                    if m:
                        return m.group(0)
        return "?"

    def divisor(self, b, t, pos):
        ib, T = self.s.ib, self.s.T
        for x, st in self.after(t[5]):
            if st[0] == "=" and st[2][0] == "bin" and st[2][1] in ("Div", "Rem"):
                return T.op(ib, st[2][3], x)
        return None

    def after(self, b):
        seen = set()
        while b is not None and b not in seen:
            seen.add(b)
            bl = self.s.ib.blocks[b]
            for i, st in enumerate(bl["s"]):
                yield (b, i), st
            t = bl["t"]
            b = t[5] if t[0] == "assert" else t[1] if t[0] == "goto" else None

    def slice(self, rt, x, i, c, b, kind="slice"):
        s, B = self.s, self.s.B
        f = dict(i[4]) if i[0] == "agg" else {}
        lo, hi = f.get("start"), f.get("end")
        ln = ("call", "Vec::len", (x,))
        name = i[2].split("::")[-1] if i[0] == "agg" else s.canon(i)
        if name == "RangeFull":
            return
        text = "str" in rt or "String" in rt
        def fails():
            r = 0
            if text:
                return 1        # character boundaries are not decided
            if hi is not None:
                r = B.OR(r, s.ltf(ln, hi))
                if lo is not None and not (lo[0] == "const" and lo[2] == 0):
                    r = B.OR(r, s.ltf(hi, lo))
            elif lo is not None and not (lo[0] == "const" and lo[2] == 0):
                r = B.OR(r, s.ltf(ln, lo))
            return r
        if text:
            # a position counted through a text: by how many bytes it moves on, unless by a character's
            for e, t in ("from", lo), ("to", hi):
                for n in sorted(self.steps(t)):
                    self.add("step:str", f"{s.canon(x)} {e}{'' if hi is not None else ' there on'} by {n}", c, None, b)
        self.add(kind + (":str" if text else ""), f"{s.canon(x)}[{s.canon(lo) if lo is not None else ''}..{s.canon(hi) if hi is not None else ''}]", c, fails, b)

    def steps(self, t):
        out = set()
        if t is None or t[0] != "phi" or self.s.canon(t) != "#i":
            return out

        def adds(u):
            if u[0] == "bin" and u[1].startswith("Add"):
                adds(u[2])
                adds(u[3])
            elif u[0] == "fld" and isinstance(u[1], tuple):
                adds(u[1])
            elif u[0] == "const":
                out.add(str(u[2]))
        for u in t[1]:
            if u[0] != "const":
                adds(u)
        return out

    def add(self, kind, text, c, fails, b):
        f = c if fails is None else self.s.B.AND(c, fails())
        self.found.append((kind, text, f, b))

    def open(self):
        """{(kind, text): formula} of the ones not discharged"""
        out = {}
        for k, t, f, b in self.found:
            if f and self.B.AND(f, self.K):
                out[(k, t)] = self.B.OR(out.get((k, t), 0), f)
        return out
