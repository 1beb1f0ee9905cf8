'''C05: splitting a range partitions it exactly.'''
from .. import model, gen, render
from ..model import MB, V0, CANON
from ..real import BOOK, BibleRange, BibleRangeList, V, R, F, apply, set_flags, outcome, rng, flat, groups, kw, tup

RULE = ("A case is one range and one combination of by_book, by_chap, num_verses, regroup and flags in a random "
        "configuration; the pieces are compared with a walk over the verse sequence. Non-trivial: more than one piece.")
CASES = {"quick": 75000, "thorough": 600000}
REQUIRED = {"splits": 10000, "pieces>1": 5000, "by_book": 3000, "by_chap": 3000, "num": 3000, "all_three": 300,
            "nothing": 500, "regrouped": 3000, "not_regrouped": 3000, "multi_book_range": 1500, "chap_ranges": 300,
            "verse0_endpoint_honoured": 100, "refused": 1000, "natural>=2": 1500,
            "pieces>=1000": 4}


def fixed(tier):
    '''Many pieces.'''
    out = []
    for k, (g, rg, bb, bc, n) in enumerate([(1, True, False, False, 1), (3, False, False, False, 1), (1, True, True, True, None),
                                            (3, True, False, True, 7), (1, False, True, True, 3), (3, True, True, False, 2)]):
        out.append({"cfg": {"k": "default"}, "g": g, "a": None, "r": [("Gen", 1, 1), ("Rev", 22, 21)], "bb": bb, "bc": bc,
                    "n": n, "rg": rg})
    return out


def make(r, i, tier):
    cfg = model.random_cfg(r, 0.7)
    bible = model.bible(cfg)
    g, a = gen.pick_flags(r)
    c = {"cfg": cfg, "g": g, "a": a}
    z = bool(gen.eff(c) & V0) or r.random() < 0.08
    vw = bible.view(z)
    i, j = gen.pick_span(r, vw, r.random() < 0.5)
    if j - i > 4000 and r.random() < 0.9:
        j = i + r.randint(0, 2000)
        if r.random() < 0.5:
            j = vw.book_of(i)[1]
    c["r"] = list(vw.rng(i, j))
    c["bb"], c["bc"] = r.random() < 0.4, r.random() < 0.4
    ln = j - i + 1
    c["n"] = None if r.random() < 0.45 else max(1, r.choice([1, 2, 3, 5, 7, 10, 15, 31, ln - 1, ln, ln + 1, 10 ** 5,
                                                              r.randint(1, ln)]))
    if ln > 3000 and c["n"] is not None and c["n"] < 10:
        c["n"] += 20
    c["rg"] = r.random() < 0.5
    if r.random() < 0.1:
        c["bad"] = [r.choice([0, 0, -1, -r.randint(2, 500)])]
    return c


def run(case, m):
    bible = apply(case["cfg"])
    set_flags(case["g"])
    E = gen.eff(case)
    r = tup(case["r"])
    x = R(r)
    k = kw(case)
    zend = r[0][2] == 0 or r[1][2] == 0
    vw = bible.view(bool(E & V0) or zend)
    bb, bc, n, rg = case["bb"], case["bc"], case["n"], case["rg"]
    want = vw.split(r, bb, bc, n)
    args = dict(k)
    if bb:
        args["by_book"] = True
    if bc:
        args["by_chap"] = True
    if n is not None:
        args["num_verses"] = n
    if not rg:
        args["regroup"] = False
    w = f"{r}.split({args}), global {case['g']}"
    out = outcome(lambda: x.split(**args))
    m.eq(out[0], "ok", f"{w} raised {out[1]}; outcome")
    res = out[1]
    got = flat(res)
    m.ev("splits")
    m.eq(got, want, w)
    m.eq(rng(x), r, "the range after " + w)
    if len(want) >= 1000:
        m.ev("pieces>=1000")
    if len(want) > 1:
        m.ev("pieces>1")
        m.mark()
    m.ev("pieces", len(want))
    gs = groups(res)
    m.eq([y for g in gs for y in g], want, "groups of " + w)
    if rg:
        m.ev("regrouped")
        nat = render.natural(bible, E, want, CANON["names"])
        if nat is not None:
            m.eq(gs, nat, "the grouping of the result of " + w)
            m.ev("natural>=2" if len(nat) > 1 else "natural")
    else:
        m.ev("not_regrouped")
        m.eq(len(gs), 1, "number of groups without regrouping of " + w)
    for bad in case.get("bad", []):
        m.ev("refused")
        m.eq(outcome(lambda: x.split(**dict(args, num_verses=bad))), ("exc", "ValueError"),
             f"{r}.split(num_verses={bad})")
    if zend and not E & V0:
        m.ev("verse0_endpoint_honoured")
    for name, on in (("by_book", bb), ("by_chap", bc), ("num", n is not None), ("all_three", bb and bc and n),
                     ("nothing", not bb and not bc and n is None), ("multi_book_range", r[0][0] != r[1][0])):
        if on:
            m.ev(name)
    if vw.whole_book(r) and not (zend and not E & V0):
        m.ev("chap_ranges")
        lst = BOOK[r[0][0]].chap_ranges(regroup=rg, **k)
        allc = vw.split(r, False, True, None)
        m.eq(flat(lst), allc, f"{r[0][0]}.chap_ranges(regroup={rg}, {k}), global {case['g']}")
        m.eq(groups(lst), groups(x.split(by_chap=True, regroup=rg, **k)), "groups of chap_ranges")
