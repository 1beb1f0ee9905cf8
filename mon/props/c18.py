'''C18: groups always partition the list, and group views never lie.'''
import random
from .. import lists

RULE = ("A case is a history of list, group and view operations; after every operation all groups are compared with "
        "the model and every view obtained so far is used again: it must show exactly one current group or raise "
        "GroupViewError. Non-trivial: at least two groups and one use of a view obtained earlier.")
CASES = {"quick": 60000, "thorough": 1000000}
REQUIRED = {"histories": 3000, "live_view_used": 20000, "stale_view_raised": 5000, "stale_view_shows_a_group": 200,
            "written_through_view": 500, "deleted_through_view": 1000, "op_view": 5000, "op_igroup": 2000,
            "op_clear": 50, "op_sort": 200, "op_reverse": 200, "op_clear_groups": 200, "op_self": 200,
            "op_insert": 2000, "op_prepend": 1500, "op_copy": 200}
SHRINK = ("ops",)


def fixed(tier):
    out = []
    for s in range(24):
        r = random.Random(f"many groups {s}")
        ops = [["append_group", [r.randrange(lists.KEYS) for _ in range(r.choice([1, 2, 3, 12]))]] for _ in range(15)]
        out.append({"c": "gr"[s % 2], "ops": ops + lists.gen_ops(r, 12, True)})
    for s in range(4):
        r = random.Random(f"very many groups {s}")
        ops = [["append_group", [r.randrange(lists.KEYS) for _ in range(r.choice([1, 1, 2, 3]))]] for _ in range(r.choice([150, 300]))]
        out.append({"c": "gr"[s % 2], "ops": ops + lists.gen_ops(r, 15, True)})
    return out


def make(r, i, tier):
    return {"c": r.choice("gr"), "ops": lists.gen_ops(r, r.choice([3, 6, 10, 15, 25]), True)}


def run(case, m):
    d = lists.Driver(case["c"], m, "groups")
    m.ev("histories")
    multi = False
    for op in case["ops"]:
        d.step(op)
        d.check_groups()
        multi = multi or len(d.groups) > 1
    if multi and d.views:
        m.mark()
