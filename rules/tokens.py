"""The names of the compiled format: what each stands for, per the Ink JSON format."""
import re

COMMANDS = {"ev": "EvalStart", "out": "EvalOutput", "/ev": "EvalEnd", "du": "Duplicate", "pop": "PopEvaluatedValue", "~ret": "PopFunction", "->->": "PopTunnel",
            "str": "BeginString", "/str": "EndString", "nop": "NoOp", "choiceCnt": "ChoiceCount", "turn": "Turns", "turns": "TurnsSince", "readc": "ReadCount", "rnd": "Random",
            "srnd": "SeedRandom", "visit": "VisitIndex", "seq": "SequenceShuffleIndex", "thread": "StartThread", "done": "Done", "end": "End", "listInt": "ListFromInt",
            "range": "ListRange", "lrnd": "ListRandom", "#": "BeginTag", "/#": "EndTag"}
# operator -> (variant, number of operands, the function that computes it)
OPS = {"+": ("Add", 2, "add_op"), "-": ("Subtract", 2, "subtract_op"), "/": ("Divide", 2, "divide_op"), "*": ("Multiply", 2, "multiply_op"), "%": ("Mod", 2, "mod_op"), "_": ("Negate", 1, "negate_op"),
       "==": ("Equal", 2, "equal_op"), ">": ("Greater", 2, "greater_op"), "<": ("Less", 2, "less_op"), ">=": ("GreaterThanOrEquals", 2, "greater_than_or_equals_op"), "<=": ("LessThanOrEquals", 2, "less_than_or_equals_op"),
       "!=": ("NotEquals", 2, "not_equals_op"), "!": ("Not", 1, "not_op"), "&&": ("And", 2, "and_op"), "||": ("Or", 2, "or_op"), "MIN": ("Min", 2, "min_op"), "MAX": ("Max", 2, "max_op"), "POW": ("Pow", 2, "pow_op"),
       "FLOOR": ("Floor", 1, "floor_op"), "CEILING": ("Ceiling", 1, "ceiling_op"), "INT": ("Int", 1, "int_op"), "FLOAT": ("Float", 1, "float_op"), "?": ("Has", 2, "has"), "!?": ("Hasnt", 2, "hasnt"),
       "^": ("Intersect", 2, "intersect_op"), "LIST_MIN": ("ListMin", 1, "list_min_op"), "LIST_MAX": ("ListMax", 1, "list_max_op"), "LIST_ALL": ("All", 1, "all_op"), "LIST_COUNT": ("Count", 1, "count_op"),
       "LIST_VALUE": ("ValueOfList", 1, "value_of_list_op"), "LIST_INVERT": ("Invert", 1, "inverse_op")}


def only(E, pat, name):
    """the literal p == name with every other literal of the same form false"""
    f = 0
    for a in E.atoms(pat):
        m = re.match(pat, a)
        if m[1] == name:
            f = E.lit("^" + re.escape(a) + "$")
    if f == 0:
        return 0
    for a in E.atoms(pat):
        if re.match(pat, a)[1] != name:
            f = E.B.AND(f, E.B.NOT(E.lit("^" + re.escape(a) + "$")))
    return f


def table(q, rid, fn, pat, value, want, floor):
    """fn maps every name (atoms matching pat) to exactly the wanted value text"""
    E = q.need(fn, rid)
    if not E:
        return
    names = {re.match(pat, a)[1] for a in E.atoms(pat)}
    for n, w in want.items():
        # the last of a chain of tests may be implied by the others being false
        f = only(E, pat, n)
        got = sorted({(re.search(value, v) or [v, v])[1] for t, v, g in E.sites("^return$") if f and E.sat(E.B.AND(g, f))})
        q.ctx.expect(rid, got == [w], f"{fn}:{n}", f"{fn} answers {got or 'nothing'} for {n}, not {w}", E.at)
    for n in sorted(names - set(want)):
        q.ctx.fail(rid, f"{fn}:{n}:unknown", f"{fn} knows {n}, which is not part of the format", E.at)
    q.ctx.count(f"{fn} names", len(names), floor, rid)


def readers(q, rid):
    table(q, rid, "ControlCommand::new_from_name", r'^p1 == "(.*)"$', r"command_type:CommandType::(\w+)", COMMANDS, 26)
    table(q, rid, "NativeFunctionCall::new_from_name", r'^p1 == "(.*)"$', r"op:Op::(\w+)", {n: o[0] for n, o in OPS.items()}, 31)


def writers(q, rid):
    table(q, rid, "ControlCommand::get_name", r"^p1 is (\w+)$", r'^"(.*)"$', {v: n for n, v in COMMANDS.items()}, 26)
    table(q, rid, "NativeFunctionCall::get_name", r"^p1 is (\w+)$", r'^"(.*)"$', {o[0]: n for n, o in OPS.items()}, 31)
