'''C09: in-place set operations of range lists agree with the out-of-place ones.'''
from .. import model, gen
from ..model import MB, V0
from ..setops import *
from ..real import apply, set_flags, kw
from .c06 import observe_case
from . import c08

RULE = ("A case is a history of 1-4 in-place set operations (update methods with flags, or |= &= -= ^=) on one list, "
        "with verse/range/list operands including the list itself; after each step the same list object must hold what "
        "the out-of-place operation gives, groups included, and the verses the model gives. Non-trivial: the list "
        "holds verses before and the step changes it.")
CASES = {"quick": 48000, "thorough": 400000}
REQUIRED = {"update_method": 5000, "operator": 5000, "self_operand": 1000, "changed": 4000, "became_empty": 300,
            **{f"op_{o}": 2000 for o in OPS}, "aliases_seen": 5000, "multi_group_result": 1000}
SHRINK = ("steps", "x")
SYM = {"union": "|=", "intersection": "&=", "difference": "-=", "sym_difference": "^="}


def fixed(tier):
    return [{"cfg": c["cfg"], "g": c["g"], "x": c["x"], "steps": [{"op": c["op"], "form": c["form"], "a": None, "o": c["o"]}]}
            for c in c08.fixed(tier)]


def make(r, i, tier):
    c = c08.make(r, i, tier)
    c["a"] = None
    bible = model.bible(c["cfg"])
    c["g"] = r.randrange(4)
    vw = bible.view(c["g"] & V0)
    xs = gen.pick_ranges(r, vw, r.random() < 0.4, gen.nitems(r))
    c["x"] = gen.pick_groups(r, xs)
    near = near_of(vw, xs)
    steps = []
    for _ in range(r.randint(1, 4)):
        s = {"op": r.choice(list(OPS)), "form": r.choice(["method", "operator"]), "a": None}
        if r.random() < 0.12:
            s["o"] = None       # the list itself
        else:
            s["o"] = pick_operand(r, vw, "vrlll", r.random() < 0.3, near, 6)
        if s["form"] == "method" and r.random() < 0.5:
            s["a"] = r.choice([0, 1]) | (c["g"] & V0)
        steps.append(s)
    return {"cfg": c["cfg"], "g": c["g"], "x": c["x"], "steps": steps}


def run(case, m):
    bible = apply(case["cfg"])
    set_flags(case["g"])
    X = tup(case["x"])
    x = L(X)
    alias = x
    view0 = [q for g in X for q in g]
    for n, s in enumerate(case["steps"]):
        E = gen.eff({"a": s["a"], "g": case["g"]})
        vw = bible.view(E & V0)
        before = flat(x)
        A = vw.lmask(before)
        copy = BibleRangeList(x)
        k = kw(s)
        if s["o"] is None:
            y, rs = x, before
            B = A
            ocopy = BibleRangeList(x)
            m.ev("self_operand")
        else:
            y, rs = build(s["o"]), ranges_of(s["o"])
            B = vw.lmask(rs)
            ocopy = build(s["o"])
        op = s["op"]
        w = f"step {n}: {before} {op}-update {s['o'] or 'itself'} ({s['form']} {k}, global {case['g']})"
        out = outcome(lambda: inplace(x, op, y, s["form"], k))
        m.eq(out[0], "ok", f"{w} raised {out[1]}; outcome")
        if s["form"] == "operator":
            m.check(out[1] is alias, "%s: the variable now holds %r instead of the same list", w, out[1])
            m.ev("operator")
        else:
            m.ev("update_method")
        x = alias
        want = outcome(lambda: getattr(copy, op)(ocopy, **k))
        m.eq(want[0], "ok", f"out-of-place {w} raised {want[1]}; outcome")
        got = flat(x)
        canonical(m, vw, got, OPS[op](A, B), before + rs, E, w)
        m.eq(groups(x), groups(want[1]), "in-place against out-of-place, " + w)
        m.check(x == want[1] and want[1] == x, "equality with the out-of-place result, %s", w)
        m.eq([q for g in groups(x) for q in g], got, "groups against items, " + w)
        m.ev("aliases_seen")
        m.ev("op_" + op)
        if got != before:
            m.ev("changed")
            if before:
                m.mark()
        if before and not got:
            m.ev("became_empty")
        if len(groups(x)) > 1:
            m.ev("multi_group_result")
        if s["o"] is not None:
            m.eq(observe(s["o"], y), observe_case(s["o"]), "operand afterwards, " + w)


def inplace(x, op, y, form, k):
    if form == "method":
        getattr(x, op + "_update")(y, **k)
        return x
    if op == "union":
        x |= y
    elif op == "intersection":
        x &= y
    elif op == "difference":
        x -= y
    else:
        x ^= y
    return x
