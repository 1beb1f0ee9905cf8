'''C08: set algebra of range lists.'''
from .. import model, gen, render
from ..model import MB, V0, CANON
from ..setops import *
from ..real import apply, set_flags, kw
from .c06 import observe_case
from .c07 import strip0, call

RULE = ("A case is a list (unsorted, overlapping, duplicated, grouped at random), a verse, range or list near it, and "
        "one of union, intersection, difference, sym_difference as method (with flags) or operator; the result is "
        "compared with explicit verse sets and must be canonical. Non-trivial: both operands hold verses.")
CASES = {"quick": 96000, "thorough": 700000}
REQUIRED = {"v": 1000, "r": 1000, "l": 4000, "operator": 2000, "method": 3000, "empty_self": 300, "empty_other": 300,
            "empty_result": 500, "existing_multibook_without_flag": 500, "cross_book_result": 200,
            "big_lists": 20, "len>=1000": 8, "messy_self": 1000,
            **{f"op_{o}": 1500 for o in OPS}, "results_canonical": 6000, "regrouped>=2": 3000, "joined_in_a_group": 500}
SHRINK = ("x",)


def fixed(tier):
    '''Lists longer than Python's recursion limit.'''
    out = []
    for op in OPS:
        for shuffled in (False, True):
            x = gen.long_list(1300, 3, shuffled)
            out.append({"cfg": {"k": "default"}, "g": 1 if shuffled else 0, "a": None, "op": op, "form": "method", "x": x,
                        "o": {"k": "l", "d": gen.long_list(12, 150, shuffled)}})
            out.append({"cfg": {"k": "default"}, "g": 0, "a": None, "op": op, "form": "operator",
                        "x": gen.long_list(12, 150, shuffled), "o": {"k": "l", "d": x}})
    return out


def make(r, i, tier):
    cfg = model.random_cfg(r, 0.7)
    bible = model.bible(cfg)
    g, a = gen.pick_flags(r)
    c = {"cfg": cfg, "g": g, "a": a, "op": r.choice(list(OPS)), "form": "method"}
    if r.random() < 0.4:
        c["form"], c["a"] = "operator", None
    vw = bible.view(gen.eff(c) & V0)
    big = r.random() < 0.01
    n = r.randint(20, 60) if big else gen.nitems(r)
    xs = gen.pick_ranges(r, vw, r.random() < 0.4, n)
    c["x"] = gen.pick_groups(r, xs)
    c["o"] = pick_operand(r, vw, "vrllll", r.random() < 0.4, near_of(vw, xs), 20 if big else 7)
    if c["o"]["k"] == "l" and r.random() < 0.06:
        c["o"]["d"] = c["x"]
    return c


def run(case, m):
    bible = apply(case["cfg"])
    set_flags(case["g"])
    E = gen.eff(case)
    vw = bible.view(E & V0)
    X, o, k, op = tup(case["x"]), case["o"], kw(case), case["op"]
    x, y = L(X), build(o)
    xs, rs = [q for g in X for q in g], ranges_of(o)
    A, B = vw.lmask(xs), vw.lmask(rs)
    w = f"{X} {op} {o} ({case['form']} {k}, global {case['g']})"
    res = outcome(lambda: call(x, op, y, case["form"], k))
    m.eq(res[0], "ok", f"{w} raised {res[1]}; outcome")
    got = flat(res[1])
    canonical(m, vw, got, OPS[op](A, B), xs + rs, E, w)
    m.eq([q for g in groups(res[1]) for q in g], got, "groups of the result of " + w)
    want = render.natural(bible, E, got, CANON["names"])
    if want is not None:
        m.eq(groups(res[1]), want, "the grouping of the result of " + w)
        m.ev("regrouped>=2" if len(want) > 1 else "regrouped")
        if any(len(g) > 1 for g in want):
            m.ev("joined_in_a_group")
    m.ev(o["k"])
    m.ev(case["form"])
    m.ev("op_" + op)
    if A and B:
        m.mark()
    if not A:
        m.ev("empty_self")
    if not B:
        m.ev("empty_other")
    if not got:
        m.ev("empty_result")
    if multibook(got):
        m.ev("cross_book_result")
    if len(xs) >= 20:
        m.ev("big_lists")
    if len(xs) >= 1000:
        m.ev("len>=1000")
    if len(vw.runs(A, False)) < len(xs):
        m.ev("messy_self")
    if not E & MB and multibook(xs + rs):
        m.ev("existing_multibook_without_flag")
    m.eq((groups(x), observe(o, y)), ([list(g) for g in X], observe_case(o)), "operands afterwards: " + w)
    m.check(res[1] is not x and res[1] is not y, "result of %s is one of its operands", w)
