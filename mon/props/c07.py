'''C07: set algebra of a range with a verse, a range or a list.'''
from .. import model, gen
from ..model import MB, V0
from ..setops import *
from ..real import apply, set_flags, kw
from . import c06

RULE = ("A case is one range, one verse/range/list placed near it, one of union, intersection, difference, "
        "sym_difference, called as a method with flags or as an operator; the result is compared with explicit verse "
        "sets and must be canonical. Non-trivial: the operands overlap or are adjacent.")
CASES = {"quick": 225000, "thorough": 1500000}
REQUIRED = {"v": 3000, "r": 5000, "l": 3000, "operator": 4000, "method": 4000, "rel_equal": 200, "rel_adjacent": 600,
            "rel_disjoint": 1000, "rel_contains": 800, "rel_inside": 400, "rel_overlap": 800,
            "existing_multibook_without_flag": 500, "at_book_edge": 1500,
            **{f"op_{o}": 2500 for o in OPS}, "results_canonical": 10000}
SYM = {"union": "__or__", "intersection": "__and__", "difference": "__sub__", "sym_difference": "__xor__"}


def make(r, i, tier):
    c = c06.make(r, i, tier)
    c["op"] = r.choice(list(OPS))
    if r.random() < 0.4:
        c["form"] = "operator"
        c["a"] = None
        # the operands were drawn for the flags in effect: keep those
        if c["g"] & V0 == 0:
            c["o"], c["x"] = strip0(c["o"]), strip0(c["x"])
    else:
        c["form"] = "method"
    return c


def strip0(x):
    '''Replace verse 0 by verse 1.'''
    if isinstance(x, dict):
        return {k: strip0(v) if k == "d" else v for k, v in x.items()}
    if len(x) == 3 and isinstance(x[0], str):
        return [x[0], x[1], x[2] or 1]
    return [strip0(y) for y in x]


def call(x, op, y, form, k):
    if form == "method":
        return getattr(x, op)(y, **k)
    if op == "union":
        return x | y
    if op == "intersection":
        return x & y
    if op == "difference":
        return x - y
    return x ^ y


def run(case, m):
    bible = apply(case["cfg"])
    set_flags(case["g"])
    E = gen.eff(case)
    vw = bible.view(E & V0)
    r, o, k, op = tup(case["x"]), case["o"], kw(case), case["op"]
    x, y = R(r), build(o)
    rs = ranges_of(o)
    A, B = vw.mask(r), vw.lmask(rs)
    w = f"{r} {op} {o} ({case['form']} {k}, global {case['g']})"
    res = outcome(lambda: call(x, op, y, case["form"], k))
    m.eq(res[0], "ok", f"{w} raised {res[1]}; outcome")
    got = flat(res[1])
    canonical(m, vw, got, OPS[op](A, B), [r] + rs, E, w)
    m.ev(o["k"])
    m.ev(case["form"])
    m.ev("op_" + op)
    rel = classify(A, B, vw)
    m.ev("rel_" + rel)
    if rel not in ("disjoint", "empty"):
        m.mark()
    if not E & MB and multibook([r] + rs):
        m.ev("existing_multibook_without_flag")
    i, j = vw.span(r)
    if i == vw.book_of(i)[0] or j == vw.book_of(j)[1]:
        m.ev("at_book_edge")
    m.eq((rng(x), observe(o, y)), (r, c06.observe_case(o)), "operands afterwards: " + w)
