'''C11: measures and relations of a range list.'''
from .. import model, gen
from ..model import MB, V0
from ..setops import *
from ..real import apply, set_flags, kw
from .c06 import observe_case

RULE = ("A case is a random list (unsorted, overlapping, nested) and a verse/range/list near it; counts, enclosing "
        "ranges, contains/in and is_disjoint are compared with enumeration, and again "
        "after a range of the list was replaced. Non-trivial: at least two ranges.")
CASES = {"quick": 40000, "thorough": 450000}
REQUIRED = {"lists": 8000, "nonempty": 6000, "contains_true": 2000, "contains_only_by_joining": 100,
            "disjoint_true": 1500, "last_is_not_max_end": 500, "multibook_without_flag": 500, "v": 1000, "r": 1000,
            "l": 1000, "asked_again": 8000}
SHRINK = ("x",)


def fixed(tier):
    out = []
    for shuffled in (False, True):
        for n, o in ((1300, 7), (1300, 1), (5, 1300)):
            out.append({"cfg": {"k": "default"}, "g": 0, "a": None, "x": gen.long_list(n, 2, shuffled),
                        "o": {"k": "l", "d": gen.long_list(o, 2, not shuffled)}})
    return out


def make(r, i, tier):
    cfg = model.random_cfg(r, 0.75)
    bible = model.bible(cfg)
    g, a = gen.pick_flags(r)
    c = {"cfg": cfg, "g": g, "a": a}
    vw = bible.view(gen.eff(c) & V0)
    xs = gen.pick_ranges(r, vw, r.random() < 0.4, gen.nitems(r, 10))
    if xs and r.random() < 0.3:     # split ranges into adjacent parts
        k = r.randrange(len(xs))
        i, j = vw.span(tup(xs[k]))
        p = r.randint(i, j)
        if p < j:
            xs[k:k + 1] = [list(vw.rng(i, p)), list(vw.rng(p + 1, j))]
            r.shuffle(xs)
    c["x"] = gen.pick_groups(r, xs)
    c["o"] = pick_operand(r, vw, "vrl", r.random() < 0.4, near_of(vw, xs), 4)
    if xs and r.random() < 0.35:    # inside what the list covers
        A = vw.lmask(tup(xs))
        runs = vw.runs(A, True)
        i, j = vw.span(r.choice(runs))
        p, q = sorted([r.randint(i, j), r.randint(i, j)])
        if r.random() < 0.3:
            p, q = i, j
        c["o"] = {"k": "r", "d": list(vw.rng(p, q))}
        if r.random() < 0.3:
            c["o"] = {"k": "l", "d": [[list(vw.rng(p, q))], [list(vw.rng(i, p))]]}
    if xs and r.random() < 0.4:
        c["then"] = [[r.randrange(len(xs)), gen.pick_ranges(r, vw, r.random() < 0.4, 1)[0]] for _ in range(r.randint(1, 2))]
    return c


def run(case, m):
    bible = apply(case["cfg"])
    set_flags(case["g"])
    X, o = [list(g) for g in tup(case["x"])], case["o"]
    x, y = L(tup(case["x"])), build(o)
    ask(case, m, bible, X, o, x, y)
    for i, q in case.get("then", ()):       # one range is replaced by another, and the same asked again
        n = 0
        for g in X:
            if n <= i < n + len(g):
                g[i - n] = tup(q)
            n += len(g)
        if i < n:
            x[i] = R(tup(q))
            m.ev("asked_again")
            ask(case, m, bible, X, o, x, y)


def ask(case, m, bible, X, o, x, y):
    E = gen.eff(case)
    vw = bible.view(E & V0)
    k = kw(case)
    xs, rs = [q for g in X for q in g], ranges_of(o)
    w = f"{X} (global {case['g']}, {k})"
    m.ev("lists")
    if len(xs) >= 2:
        m.mark()
    tot = lambda f: sum(f(q) for q in xs)
    m.eq(outcome(lambda: x.verse_count(**k)), ("ok", tot(lambda q: vw.pos[q[1]] - vw.pos[q[0]] + 1)), "verse_count " + w)
    m.eq(outcome(lambda: x.chap_count(**k)), ("ok", tot(lambda q: vw.chapters(q)[0])), "chap_count " + w)
    m.eq(outcome(lambda: x.chap_count(whole=True, **k)), ("ok", tot(lambda q: vw.chapters(q)[1])), "whole chap_count " + w)
    m.eq(outcome(lambda: x.book_count(**k)), ("ok", tot(lambda q: vw.books(q)[0])), "book_count " + w)
    m.eq(outcome(lambda: x.book_count(whole=True, **k)), ("ok", tot(lambda q: vw.books(q)[1])), "whole book_count " + w)
    if xs:
        m.ev("nonempty")
        i = min(vw.pos[q[0]] for q in xs)
        j = max(vw.pos[q[1]] for q in xs)
        if max(xs, key=bible.rkey)[1] != vw.seq[j]:
            m.ev("last_is_not_max_end")
        m.eq(outcome(lambda: x.range(), rng), ("ok", vw.rng(i, j)), "range " + w)
        m.eq(outcome(lambda: x.chap_range(**k), rng), ("ok", vw.rng(vw.chap_of(i)[0], vw.chap_of(j)[1])), "chap_range " + w)
        m.eq(outcome(lambda: x.book_range(**k), rng), ("ok", vw.rng(vw.book_of(i)[0], vw.book_of(j)[1])), "book_range " + w)
    A, B = vw.lmask(xs), vw.lmask(rs)
    want = B & ~A == 0
    w = f"{o} and list {w}"
    m.ev(o["k"])
    m.eq(outcome(lambda: x.contains(y, **k)), ("ok", want), "contains " + w)
    if bool(case["g"] & V0) == vw.z:
        m.eq(outcome(lambda: y in x), ("ok", want), "in " + w)
    if want and B:
        m.ev("contains_true")
        if not all(any(vw.mask(q) & ~vw.mask(p) == 0 for p in xs) for q in rs):
            m.ev("contains_only_by_joining")
    if multibook(rs + xs) and not E & MB:
        m.ev("multibook_without_flag")
    m.eq(outcome(lambda: x.is_disjoint(y)), ("ok", A & B == 0), "is_disjoint " + w)
    if A & B == 0 and A and B:
        m.ev("disjoint_true")
    m.eq((groups(x), observe(o, y)), ([list(g) for g in X], observe_case(o)), "operands afterwards: " + w)
