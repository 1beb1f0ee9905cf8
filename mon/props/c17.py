'''C17: a grouped list behaves as a list, whatever was done to it before.'''
import random
from .. import lists
from ..real import GroupedList

RULE = ("A case is a history of operations on a GroupedList or BibleRangeList; after every operation its length, items "
        "in both directions and by positive and negative index are compared with a plain Python list. Non-trivial: at "
        "least three items and one removal or reordering.")
CASES = {"quick": 72000, "thorough": 400000}
REQUIRED = {"op_" + k: 500 for k in ("append", "prepend", "insert", "extend", "append_group", "iadd", "igroup", "pop",
                                     "del", "remove", "set", "clear", "clear_groups", "reverse", "sort", "self",
                                     "copy", "bad", "query")}
REQUIRED.update({"histories": 5000, "grouped_list": 2000, "bible_range_list": 2000, "len>=100": 30, "len>=1000": 10})
SHRINK = ("ops",)
VIEWS = False


def fixed(tier):
    out = []
    for c in "gr":
        for s in range(6):
            r = random.Random(f"long{c}{s}")
            ops = [["append_group", [r.randrange(lists.KEYS) for _ in range(r.choice([20, 150, 400, 700]))]] for _ in range(4)]
            ops.append(["extend", [r.randrange(lists.KEYS) for _ in range(900)]])
            ops += [o for o in lists.gen_ops(r, 25, False) if o[0] != "clear"][-25:] + [["sort", 0], ["reverse", 0]]
            ops += [o for o in lists.gen_ops(r, 12, False)][-12:]
            out.append({"c": c, "ops": ops})
    return out


def make(r, i, tier):
    return {"c": r.choice("gr"), "ops": lists.gen_ops(r, r.choice([3, 6, 10, 15, 25, 40]), r.random() < 0.3)}


def run(case, m):
    d = lists.Driver(case["c"], m, "flat")
    m.ev("histories")
    m.ev("grouped_list" if case["c"] == "g" else "bible_range_list")
    big = 0
    for op in case["ops"]:
        d.step(op)
        d.check_flat()
        big = max(big, len(d.nodes()))
    if big >= 1000:
        m.ev("len>=1000")
    if big >= 100:
        m.ev("len>=100")
    if big > 2 and any(o[0] in ("pop", "del", "remove", "reverse", "sort", "vdel", "insert") for o in case["ops"]):
        m.mark()
