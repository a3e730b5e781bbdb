"""Short, module-independent names for resolved def paths."""
from functools import lru_cache


def _split(p):
    """split at top-level '::' (not inside <> or ())"""
    out, cur, d = [], "", 0
    i = 0
    while i < len(p):
        c = p[i]
        if c in "<([":
            d += 1
        elif c in ")]":
            d -= 1
        elif c == ">" and not (i > 0 and p[i - 1] == "-"):
            d -= 1
        if d == 0 and p.startswith("::", i):
            out.append(cur)
            cur = ""
            i += 2
            continue
        cur += c
        i += 1
    out.append(cur)
    return out


def _strip_ty(t):
    t = t.strip()
    for pre in ("&mut ", "&"):
        if t.startswith(pre):
            return pre + _strip_ty(t[len(pre):])
    if t.startswith("'"):
        # lifetime
        sp = t.find(" ")
        return _strip_ty(t[sp + 1:]) if sp > 0 else t
    if t.startswith("(dyn "):
        inner = t[5:-1].split(" + ")[0]
        return "dyn " + short_ty(inner)
    if t.startswith("dyn "):
        return "dyn " + short_ty(t[4:].split(" + ")[0])
    return short_ty(t)


@lru_cache(None)
def short_ty(t):
    parts = _split(t)
    last = parts[-1]
    j = last.find("<")
    if j > 0:
        last = last[:j]
    return last


@lru_cache(None)
def short(p):
    parts = _split(p)
    segs = []
    for k0, s in enumerate(parts):
        if s.startswith("<") and not s.startswith("<impl ") and k0 > 0:
            continue  # turbofish
        if s.startswith("<impl "):
            inner = s[6:-1]
            if " for " in inner:
                tr, ty = inner.split(" for ", 1)
                segs.append(f"<{_strip_ty(ty)} as {short_ty(tr)}>")
            else:
                segs.append(_strip_ty(inner))
        elif s.startswith("<") and " as " in s:
            inner = s[1:-1]
            # split at top-level " as "
            d = 0
            k = -1
            for i, c in enumerate(inner):
                if c in "<(":
                    d += 1
                elif c in ")>" and not (c == ">" and inner[i - 1] == "-"):
                    d -= 1
                elif d == 0 and inner.startswith(" as ", i):
                    k = i
                    break
            segs.append(f"<{_strip_ty(inner[:k])} as {short_ty(inner[k + 4:])}>")
        elif s.startswith("<"):
            segs.append(_strip_ty(s[1:-1]))
        else:
            segs.append(s)
    # trailing closure segments are kept
    tail = []
    while segs and segs[-1].startswith("{"):
        tail.insert(0, segs.pop())
    keep = segs[-2:] if len(segs) >= 2 else segs
    return "::".join(keep + tail)


if __name__ == "__main__":
    for p in ["story::progress::<impl story::Story>::continue_internal",
              "<callstack::Element as std::clone::Clone>::clone",
              "std::vec::Vec::<T, A>::push", "core::str::<impl str>::trim",
              "value_type::<impl std::convert::TryFrom<&value_type::ValueType> for bool>::try_from",
              "value::<impl std::convert::TryFrom<&'val (dyn object::RTObject + 'static)> for &'val value_type::VariablePointerValue>::try_from",
              "json::json_read::jtoken_to_runtime_object::{closure#0}",
              "std::rc::Rc::<(dyn std::any::Any + 'static), A>::downcast",
              "json::json_tokenizer::JsonTokenizer::<'a>::read_value",
              "std::option::Option::<&T>::copied", "core::fmt::rt::Argument::<'_>::new_display", "<(dyn std::any::Any + 'static)>::downcast_ref",
              "object::<impl dyn object::RTObject>::into_any"]:
        print(p, "=>", short(p))
