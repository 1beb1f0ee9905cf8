'''C06: relations of a range with a verse, a range or a list.'''
from .. import model, gen
from ..model import MB, V0
from ..setops import *
from ..real import apply, set_flags, kw

RULE = ("A case is one range and one verse, range or list placed near it (overlapping, nested, adjacent inside and "
        "across books and chapters, equal, far). contains/in, surrounds, is_disjoint and is_adjacent are compared with "
        "the explicit verse sets. Non-trivial: neither operand is empty.")
CASES = {"quick": 225000, "thorough": 1500000}
REQUIRED = {"v": 4000, "r": 4000, "l": 4000, "rel_equal": 200, "rel_adjacent": 800, "rel_disjoint": 1000,
            "rel_contains": 1000, "rel_inside": 500, "rel_overlap": 1000, "rel_empty": 200, "adjacent_true": 400,
            "adjacent_across_books": 100, "adjacent_refused_across_books": 60, "surrounds_true": 800,
            "list_adjacent": 100}


def make(r, i, tier):
    cfg = model.random_cfg(r, 0.7)
    bible = model.bible(cfg)
    g, a = gen.pick_flags(r)
    c = {"cfg": cfg, "g": g, "a": a}
    vw = bible.view(gen.eff(c) & V0)
    c["x"] = gen.pick_range(r, vw, r.random() < 0.3)
    near = near_of(vw, [c["x"]])
    if r.random() < 0.3:
        near = [vw.pos[tuple(c["x"][1])] + 1, vw.pos[tuple(c["x"][0])] - 1] + near
    c["o"] = pick_operand(r, vw, "vrrl", r.random() < 0.3, near, 5)
    if c["o"]["k"] == "r" and r.random() < 0.05:
        c["o"]["d"] = c["x"]
    return c


def adjacent(vw, r, q, E):
    (a, b), (c, d) = sorted([vw.span(r), vw.span(q)])
    return b + 1 == c and bool(E & MB or vw.seq[b][0] == vw.seq[c][0])


def run(case, m):
    bible = apply(case["cfg"])
    set_flags(case["g"])
    E = gen.eff(case)
    vw = bible.view(E & V0)
    r, o, k = tup(case["x"]), case["o"], kw(case)
    x, y = R(r), build(o)
    rs = ranges_of(o)
    A, B = vw.mask(r), vw.lmask(rs)
    w = f"{r} and {o} (global {case['g']}, {k})"
    m.ev(o["k"])
    rel = classify(A, B, vw)
    m.ev("rel_" + rel)
    if B:
        m.mark()
    want = B & ~A == 0
    m.eq(outcome(lambda: x.contains(y)), ("ok", want), "contains: " + w)
    m.eq(outcome(lambda: y in x), ("ok", want), "in: " + w)
    ends = vw.mask((r[0], r[0])) | vw.mask((r[1], r[1]))
    want = B & ~(A & ~ends) == 0
    m.eq(outcome(lambda: x.surrounds(y)), ("ok", want), "surrounds: " + w)
    if want and B:
        m.ev("surrounds_true")
    m.eq(outcome(lambda: x.is_disjoint(y)), ("ok", A & B == 0), "is_disjoint: " + w)
    if o["k"] == "r":
        m.eq(outcome(lambda: y.is_disjoint(x)), ("ok", A & B == 0), "is_disjoint reversed: " + w)
    want = A & B == 0 and any(adjacent(vw, r, q, E) for q in rs)
    m.eq(outcome(lambda: x.is_adjacent(y, **k)), ("ok", want), "is_adjacent: " + w)
    if o["k"] == "r":
        m.eq(outcome(lambda: y.is_adjacent(x, **k)), ("ok", want), "is_adjacent reversed: " + w)
    if want:
        m.ev("adjacent_true")
        if o["k"] == "l":
            m.ev("list_adjacent")
        if not any(adjacent(vw, r, q, 0) for q in rs):
            m.ev("adjacent_across_books")
    elif A & B == 0 and any(adjacent(vw, r, q, MB) for q in rs):
        m.ev("adjacent_refused_across_books")
    m.eq((rng(x), observe(o, y)), (r, observe_case(o)), "operands afterwards: " + w)


def observe_case(o):
    d = tup(o["d"])
    return [list(g) for g in d] if o["k"] == "l" else d
