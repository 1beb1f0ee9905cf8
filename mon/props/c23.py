'''C23: converting between verse 0 and verse 1.'''
from .. import model, gen, ops
from ..model import MB, V0
from ..real import (bibleref, BibleVerse, BibleRange, BibleRangeList, V, R, L, F, apply, set_flags, outcome, verse,
                    rng, flat, groups, tup)
from . import c13

RULE = ("A case is a verse, range or list near chapters that can start at verse 0, converted both ways under random "
        "global flags; every endpoint is compared with the model. Non-trivial: some endpoint is verse 0 or 1.")
CASES = {"quick": 160000, "thorough": 600000}
REQUIRED = {"v": 4000, "r": 4000, "l": 4000, "0_to_1": 8000, "1_to_0": 8000, "endpoint_0": 2000, "endpoint_1": 4000,
            "verse_1_without_0": 1000, "changed": 4000, "views_alive": 1500}


def make(r, i, tier):
    cfg = {"k": "tiny", "s": r.randrange(1 << 20)} if r.random() < 0.6 else \
        {"k": "v0", "s": r.randrange(3)} if r.random() < 0.5 else {"k": "default"}
    bible = model.bible(cfg)
    vw = bible.view(True)
    x = r.random()

    def pos():
        if cfg["k"] == "default" and r.random() < 0.7:
            lo, hi = vw.book["Psa"]
            p = r.randint(lo, hi)
        else:
            p = r.randrange(vw.n)
        lo, hi = vw.chap_of(p)
        return min(hi, r.choice([lo, lo, lo + 1, hi, p]))
    if x < 0.3:
        o = {"k": "v", "d": vw.seq[pos()]}
    elif x < 0.6:
        a, b = sorted((pos(), pos()))
        if r.random() < 0.3:
            b = min(vw.n - 1, a + r.randint(0, 1))
        o = {"k": "r", "d": [vw.seq[a], vw.seq[b]]}
    else:
        o = {"k": "l", "d": c13.make_list(r, vw, r.random() < 0.5)}
    return {"cfg": cfg, "g": r.randrange(4), "o": o, "way": r.choice(["0_to_1", "1_to_0"])}


def conv(bible, t, way):
    b, c, v = t
    if way == "0_to_1":
        return (b, c, 1) if v == 0 else t
    return (b, c, 0) if v == 1 and c in bible.v0[b] else t


def run(case, m):
    bible = apply(case["cfg"])
    set_flags(case["g"])
    o, way = case["o"], case["way"]
    x = ops.make(o)
    name = "verse_" + way
    w = f"{o}.{name}(), flags {case['g']}"
    m.ev(o["k"])
    m.ev(way)
    d = tup(o["d"])
    ends = [d] if o["k"] == "v" else list(d) if o["k"] == "r" else [t for g in d for q in g for t in q]
    for t in ends:
        if t[2] in (0, 1):
            m.ev(f"endpoint_{t[2]}")
            m.mark()
            if t[2] == 1 and t[1] not in bible.v0[t[0]]:
                m.ev("verse_1_without_0")
        if conv(bible, t, way) != t:
            m.ev("changed")
    if o["k"] == "v":
        m.eq(outcome(lambda: getattr(x, name)(), verse), ("ok", conv(bible, d, way)), w)
        m.eq(verse(x), d, "the verse after " + w)
    elif o["k"] == "r":
        want = tuple(conv(bible, t, way) for t in d)
        m.eq(outcome(lambda: getattr(x, name)(), rng), ("ok", want), w)
        m.eq(rng(x), d, "the range after " + w)
    else:
        want = [[tuple(conv(bible, t, way) for t in q) for q in g] for g in d if g]
        views = list(x.groups)
        m.eq(outcome(lambda: getattr(x, name)()), ("ok", None), w)
        m.eq(flat(x), [q for g in want for q in g], w)
        m.eq(groups(x), want, "groups after " + w)
        m.eq([[rng(q) for q in g] for g in views], want, "views obtained before " + w)
        m.ev("views_alive")
        getattr(x, name)()
        m.eq(groups(x), want, "doing it twice: " + w)
    m.eq(bibleref.flags, F(case["g"]), "the global flags after " + w)
