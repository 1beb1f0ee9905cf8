'''C10: sort and merge.'''
import random
from .. import model, gen, render
from ..model import MB, V0, CANON
from ..setops import *
from ..real import apply, set_flags, kw

RULE = ("A case is a list (random, reversed, nested, duplicated, chained adjacencies; up to thousands of ranges) that "
        "is sorted or merged, then observed forwards, backwards, by index and by group. Non-trivial: the list was "
        "not already in its final form.")
CASES = {"quick": 90000, "thorough": 500000}
REQUIRED = {"sort": 4000, "merge": 6000, "len>=1000": 8, "len>=3000": 2, "changed": 4000, "idempotent": 4000,
            "merged_away": 3000, "nested": 500, "regrouped": 3000}
SHRINK = ("x",)
CASE_SECONDS = 60


def fixed(tier):
    out = []
    for n, mode in ((1189, "chaps"), (1189, "chaps_rev"), (1500, "verses_rev"), (3000, "verses_shuffled"),
                    (4000, "verses"), (1000, "nested"), (2500, "every_other"), (5000, "shuffled_every_other")):
        for op in ("sort", "merge"):
            for g in (0, 3):
                out.append({"t": "big", "n": n, "mode": mode, "op": op, "g": g, "a": None, "rg": True,
                            "cfg": {"k": "default"}})
    return out


def make(r, i, tier):
    cfg = model.random_cfg(r, 0.7)
    bible = model.bible(cfg)
    g, a = gen.pick_flags(r)
    c = {"t": "list", "cfg": cfg, "g": g, "a": a, "op": r.choice(["sort", "merge", "merge"]), "rg": r.random() < 0.5}
    vw = bible.view(gen.eff(c) & V0)
    mode = r.random()
    if mode < 0.75:
        xs = gen.pick_ranges(r, vw, r.random() < 0.4, 
                             r.choice([0, 1, 2, 2, 3, 4, 5, 6, 8, 12, 20] if r.random() < 0.995 else [60, 130, 270]))
    elif mode < 0.85:       # a chain of adjacent pieces, shuffled
        i, j = gen.pick_span(r, vw, True)
        j = min(j, i + 40)
        xs = []
        while i <= j:
            e = min(j, i + r.randint(0, 5))
            if vw.seq[i][0] != vw.seq[e][0] and r.random() < 0.7:
                e = vw.book_of(i)[1]
            xs.append(list(vw.rng(i, e)))
            i = e + 1
        r.shuffle(xs)
    else:                   # ranges nested inside one big one, and around its end
        i, j = gen.pick_span(r, vw, True)
        xs = [list(vw.rng(i, j))]
        for _ in range(r.randint(1, 6)):
            a1 = r.randint(i, j)
            b1 = min(vw.n - 1, r.choice([r.randint(a1, j), j + 1, a1]))
            b1 = max(a1, b1)
            if vw.seq[a1][0] != vw.seq[b1][0] and r.random() < 0.5:
                b1 = vw.book_of(a1)[1]
            xs.append(list(vw.rng(a1, b1)))
        r.shuffle(xs)
    c["x"] = gen.pick_groups(r, xs)
    return c


def big(case, vw):
    n, mode = case["n"], case["mode"]
    r = random.Random(f"{n}{mode}")
    if mode.startswith("chaps"):
        xs = [vw.rng(*vw.chap[k]) for k in vw.chap]
        if mode.endswith("rev"):
            xs.reverse()
    elif mode == "nested":
        lo, hi = vw.book["Psa"]
        xs = [vw.rng(lo + k, hi - k) for k in range(n)]
        r.shuffle(xs)
    else:
        step = 2 if "every_other" in mode else 1
        xs = [(vw.seq[p], vw.seq[p]) for p in range(100, 100 + n * step, step)]
        if "rev" in mode:
            xs.reverse()
        elif "shuffled" in mode:
            r.shuffle(xs)
    return (tuple(xs[:len(xs) // 2]), tuple(xs[len(xs) // 2:]))


def run(case, m):
    bible = apply(case["cfg"])
    set_flags(case["g"])
    E = gen.eff(case)
    vw = bible.view(E & V0)
    X = big(case, vw) if case["t"] == "big" else tup(case["x"])
    x = L(X)
    xs = [q for g in X for q in g]
    k = kw(case)
    op = case["op"]
    m.ev(op)
    if len(xs) >= 1000:
        m.ev("len>=1000")
    if len(xs) >= 3000:
        m.ev("len>=3000")
    w = f"{op} of {xs[:12]} ({len(xs)} ranges; {k}, global {case['g']})"
    if op == "sort":
        args = {} if case["rg"] else {"regroup": False}
        f = lambda: x.sort(**args)
    else:
        f = lambda: x.merge(**k)
    res = outcome(f)
    m.eq(res[0], "ok", f"{w} raised {res[1]}; outcome")
    got = flat(x)
    if op == "sort":
        m.eq(got, sorted(xs, key=bible.rkey), w)
    else:
        canonical(m, vw, got, vw.lmask(xs), xs, E, w)
        if len(got) < len(xs):
            m.ev("merged_away")
    if got != xs:
        m.ev("changed")
        m.mark()
    gs = groups(x)
    m.eq([q for g in gs for q in g], got, "groups after " + w)
    m.eq(list(reversed(got)), [rng(q) for q in reversed(x)], "backwards after " + w)
    n = len(got)
    for p in {0, n // 2, n - 1} if n else ():
        m.eq(rng(x[p]), got[p], f"item {p} after " + w)
        m.eq(rng(x[p - n]), got[p], f"item {p - n} after " + w)
    if op == "sort" and not case["rg"]:
        m.eq(len(gs), min(1, n), "groups after unregrouped " + w)
    else:
        want = render.natural(bible, case["g"] if op == "sort" else E, got, CANON["names"])
        if want is not None:
            m.eq(gs, want, "the grouping after " + w)
            m.ev("regrouped")
    if not got == [] and any(vw.mask(a) & vw.mask(b) == vw.mask(b) and a != b for a in xs[:6] for b in xs[:6]):
        m.ev("nested")
    # idempotent, and the list still works as a list
    m.ev("idempotent")
    outcome(f)
    m.eq((flat(x), groups(x)), (got, gs), "doing it twice: " + w)
    if n:
        last = x.pop()
        m.eq(rng(last), got[-1], "pop() after " + w)
        x.append(last)
        m.eq(flat(x), got, "append() after " + w)
