'''C04: iteration, counts and extent queries of a range agree with the verses it contains.'''
from .. import model, gen
from ..model import MB, V0
from ..real import BOOK, BibleRange, V, R, F, apply, set_flags, outcome, verse, rng, kw, tup

RULE = ("A case is one range of a random configuration (single verses, chapters, books, multi-book, whole Bible; verse "
        "0 endpoints), whose iteration, counts, wholeness and span queries and enclosing ranges are compared with "
        "enumeration. Non-trivial: the range covers more than one chapter or starts/ends on a chapter boundary.")
CASES = {"quick": 44000, "thorough": 600000}
REQUIRED = {"ranges": 10000, "iterated": 4000, "multi_chapter": 3000, "multi_book": 1000, "verse0_inside": 1000,
            "verse0_endpoint_honoured": 200, "whole_chap": 1000, "whole_book": 500, "whole_bible_iterated": 2}


def fixed(tier):
    cfgs = [{"k": "default"}, {"k": "order", "s": "rev"}, {"k": "v0", "s": 1}]
    out = []
    for cfg in cfgs:
        for g in (0, 3):
            vw = model.bible(cfg).view(g & V0)
            out.append({"cfg": cfg, "g": g, "a": None, "r": list(vw.rng(0, vw.n - 1)), "it": 1})
    return out


def make(r, i, tier):
    cfg = model.random_cfg(r, 0.6)
    bible = model.bible(cfg)
    g, a = gen.pick_flags(r)
    c = {"cfg": cfg, "g": g, "a": a}
    E = gen.eff(c)
    z = bool(E & V0) or r.random() < 0.1
    c["r"] = gen.pick_range(r, bible.view(z), r.random() < 0.5)
    c["it"] = int(r.random() < 0.5)
    return c


def run(case, m):
    bible = apply(case["cfg"])
    set_flags(case["g"])
    E = gen.eff(case)
    r = tup(case["r"])
    x = R(r)
    k = kw(case)
    zend = r[0][2] == 0 or r[1][2] == 0
    vw = bible.view(bool(E & V0) or zend)
    i, j = vw.span(r)
    w = f"{r} ({k}, global {case['g']})"
    m.ev("ranges")
    tc, wc = vw.chapters(r)
    tb, wb = vw.books(r)
    if tc > 1:
        m.ev("multi_chapter")
    if tb > 1:
        m.ev("multi_book")
    if tc > 1 or wc or i == vw.chap_of(i)[0] or j == vw.chap_of(j)[1]:
        m.mark()
    m.eq(outcome(lambda: x.verse_count(**k)), ("ok", j - i + 1), "verse_count of " + w)
    m.eq(outcome(lambda: x.chap_count(**k)), ("ok", tc), "chap_count of " + w)
    m.eq(outcome(lambda: x.book_count(**k)), ("ok", tb), "book_count of " + w)
    m.eq(x.is_single_verse(), i == j, "is_single_verse of " + w)
    if zend and not E & V0:
        m.ev("verse0_endpoint_honoured")
    else:
        m.eq(outcome(lambda: x.chap_count(whole=True, **k)), ("ok", wc), "whole chap_count of " + w)
        m.eq(outcome(lambda: x.book_count(whole=True, **k)), ("ok", wb), "whole book_count of " + w)
        m.eq(x.is_whole_chap(**k), vw.whole_chap(r), "is_whole_chap of " + w)
        m.eq(x.is_whole_book(**k), vw.whole_book(r), "is_whole_book of " + w)
        for which in ("start", "end"):
            for unit in ("chap", "book"):
                m.eq(getattr(x, f"spans_{which}_{unit}")(**k), vw.spans(r, which, unit), f"spans_{which}_{unit} of {w}")
        m.eq(outcome(lambda: x.chap_range(**k), rng), ("ok", vw.rng(vw.chap_of(i)[0], vw.chap_of(j)[1])),
             "chap_range of " + w)
        m.eq(outcome(lambda: x.book_range(**k), rng), ("ok", vw.rng(vw.book_of(i)[0], vw.book_of(j)[1])),
             "book_range of " + w)
        if vw.whole_chap(r):
            m.ev("whole_chap")
        if vw.whole_book(r):
            m.ev("whole_book")
    if case["it"]:
        # iteration takes no flags argument, so the global flags decide
        gw = bible.view(bool(case["g"] & V0) or zend)
        if r[0] in gw.pos and r[1] in gw.pos:
            i, j = gw.span(r)
            got = outcome(lambda: [verse(v) for v in x])
            m.eq(got, ("ok", gw.seq[i:j + 1]), "iteration of " + w)
            m.ev("iterated")
            m.ev("verses_iterated", j - i + 1)
            if j - i + 1 == gw.n and gw.n > 1000:
                m.ev("whole_bible_iterated")
            if gw.z and any(t[2] == 0 for t in gw.seq[i:j + 1]):
                m.ev("verse0_inside")
            n = 0
            it = iter(x)
            for v in it:        # two independent iterations do not disturb each other
                n += 1
                if n == 2:
                    m.eq(verse(next(iter(x))), r[0], "a second iterator of " + w)
                    break
