'''C02: order of books, verses and ranges; verse arithmetic.'''
from .. import model, gen
from ..model import MB, V0
from .. import real
from ..real import BOOK, V, R, F, apply, set_flags, outcome, overse, kw, tup, Violation

RULE = ("A case is a comparison of two books/verses/ranges, a sort, an addition or subtraction of n verses, or a verse "
        "difference, in a random configuration and flags. Non-trivial: the result leaves the starting chapter, or is "
        "None, or the compared items differ.")
CASES = {"quick": 105000, "thorough": 1000000}
REQUIRED = {"add": 8000, "subtract": 8000, "diff": 8000, "compare": 8000, "none_result": 1500, "cross_book": 1500,
            "cross_chapter": 2000, "verse0_honoured": 300, "type_error": 300, "round_trip": 3000, "sorted": 300}


def make(r, i, tier):
    cfg = model.random_cfg(r, 0.55)
    bible = model.bible(cfg)
    g, a = gen.pick_flags(r)
    x = r.random()
    c = {"cfg": cfg, "g": g, "a": a}
    E = gen.eff(c)
    vw = bible.view(True if r.random() < 0.6 else bool(E & V0))
    p = gen.pick_pos(r, vw)
    c["v"] = vw.seq[p]
    if x < 0.55:
        c["t"] = "add" if x < 0.28 else "subtract"
        lo, hi = vw.book_of(p)
        cl, ch = vw.chap_of(p)
        if c["t"] == "add":
            n = r.choice([0, 1, 1, 2, 3, ch - p, ch - p + 1, hi - p, hi - p + 1, hi - p + 2, vw.n - 1 - p, vw.n - p,
                          r.randint(0, 60), r.randint(0, 3000), r.randint(0, vw.n + 5)])
        else:
            n = r.choice([0, 1, 1, 2, 3, p - cl, p - cl + 1, p - lo, p - lo + 1, p - lo + 2, p, p + 1,
                          r.randint(0, 60), r.randint(0, 3000), r.randint(0, vw.n + 5)])
        c["n"] = max(0, n)
    elif x < 0.78:
        c["t"] = "diff"
        c["w"] = vw.seq[gen.pick_pos(r, vw, [p])]
        if r.random() < 0.5:
            lo, hi = vw.book_of(p)
            c["w"] = vw.seq[r.randint(lo, hi)]
    elif x < 0.97:
        c["t"] = "compare"
        near = [p]
        c["w"] = vw.seq[gen.pick_pos(r, vw, near)]
        c["r"] = gen.pick_range(r, vw, True, near)
        c["q"] = c["r"] if r.random() < 0.1 else gen.pick_range(r, vw, True, [vw.pos[c["r"][0]], vw.pos[c["r"][1]]])
        if r.random() < 0.2:
            c["q"] = [c["r"][0], c["q"][1]]
            if vw.pos[tuple(c["q"][0])] > vw.pos[tuple(c["q"][1])]:
                c["q"].reverse()
        if r.random() < 0.1:
            c["sort"] = [vw.seq[gen.pick_pos(r, vw, near)] for _ in range(r.randint(0, 30))]
    else:
        c["t"] = "types"
    return c


def run(case, m):
    bible = apply(case["cfg"])
    set_flags(case["g"])
    globals()["run_" + case["t"]](case, m, bible)


def run_types(case, m, bible):
    v = V(case["v"])
    m.ev("type_error")
    for f in (lambda: v + "1", lambda: v + 1.5, lambda: v + None, lambda: v - "1", lambda: v - 2.5,
              lambda: v.add("1"), lambda: v.add(1.5), lambda: v.subtract("1"), lambda: v.subtract(None),
              lambda: v + v):
        m.eq(outcome(f), ("exc", "TypeError"), "arithmetic with a wrong type")


def step(bible, t, n, E):
    '''The verse n places after t (n may be negative), or None.'''
    z = bool(E & V0) or t[2] == 0
    vw = bible.view(z)
    p = vw.pos[t]
    q = p + n
    lo, hi = (0, vw.n - 1) if E & MB else vw.book_of(p)
    return vw.seq[q] if lo <= q <= hi else None


def arith(case, m, bible, sign):
    t = tup(case["v"])
    E = gen.eff(case)
    n = case["n"]
    want = step(bible, t, sign * n, E)
    v = V(t)
    k = kw(case)
    name = "add" if sign > 0 else "subtract"
    got = outcome(lambda: getattr(v, name)(n, **k), overse)
    w = f"{t}.{name}({n}, {k}), global {case['g']}"
    m.eq(got, ("ok", want), w)
    m.ev(name)
    if case["a"] is None:
        m.eq(outcome(lambda: v + n if sign > 0 else v - n, overse), ("ok", want), "operator form of " + w)
    if t[2] == 0 and not E & V0:
        m.ev("verse0_honoured")
    if want is None:
        m.ev("none_result")
        m.mark()
        return
    if want[0] != t[0]:
        m.ev("cross_book")
    if want[:2] != t[:2]:
        m.ev("cross_chapter")
        m.mark()
    if E & V0 or t[2] != 0:
        m.ev("round_trip")
        res = getattr(v, name)(n, **k)
        back = outcome(lambda: res.subtract(n, **k) if sign > 0 else res.add(n, **k), overse)
        m.eq(back, ("ok", t), "back from " + w)
        d = outcome(lambda: res.subtract(v, **k))
        m.eq(d, ("ok", sign * n), "distance moved by " + w)


def run_add(case, m, bible):
    arith(case, m, bible, 1)


def run_subtract(case, m, bible):
    arith(case, m, bible, -1)


def run_diff(case, m, bible):
    t, u = tup(case["v"]), tup(case["w"])
    E = gen.eff(case)
    if t[0] != u[0] and not E & MB:
        return
    vw = bible.view(bool(E & V0) or t[2] == 0 or u[2] == 0)
    want = vw.pos[t] - vw.pos[u]
    v, w = V(t), V(u)
    k = kw(case)
    m.eq(outcome(lambda: v.subtract(w, **k)), ("ok", want), f"{t} - {u} ({k}, global {case['g']})")
    m.eq(outcome(lambda: w.subtract(v, **k)), ("ok", -want), f"{u} - {t} ({k}, global {case['g']})")
    if case["a"] is None:
        m.eq(outcome(lambda: v - w), ("ok", want), f"operator {t} - {u} (global {case['g']})")
    m.ev("diff")
    if t[:2] != u[:2]:
        m.mark()


def six(a, b):
    return (a < b, a <= b, a > b, a >= b, a == b, a != b)


def run_compare(case, m, bible):
    t, u = tup(case["v"]), tup(case["w"])
    r, q = tup(case["r"]), tup(case["q"])
    m.eq(outcome(lambda: six(V(t), V(u))), ("ok", six(bible.key(t), bible.key(u))), f"comparing verses {t}, {u}")
    m.eq(outcome(lambda: six(BOOK[t[0]], BOOK[u[0]])),
         ("ok", six(bible.bpos[t[0]], bible.bpos[u[0]])), f"comparing books {t[0]}, {u[0]}")
    m.eq(outcome(lambda: six(R(r), R(q))), ("ok", six(bible.rkey(r), bible.rkey(q))), f"comparing ranges {r}, {q}")
    if t == u:
        m.eq(hash(V(t)), hash(V(u)), "hash of equal verses")
    if r == q:
        m.eq(hash(R(r)), hash(R(q)), "hash of equal ranges")
    m.ev("compare")
    if t != u and r != q:
        m.mark()
    if "sort" in case:
        m.ev("sorted")
        vs = [tup(x) for x in case["sort"]]
        m.eq([real.verse(x) for x in sorted(V(x) for x in vs)], sorted(vs, key=bible.key), "sorted verses")
        if vs:
            m.eq((real.verse(min(map(V, vs))), real.verse(max(map(V, vs)))),
                 (min(vs, key=bible.key), max(vs, key=bible.key)), "min, max")
