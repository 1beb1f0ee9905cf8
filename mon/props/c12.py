'''C12: verses and ranges survive conversion to a string and back.'''
from .. import model, gen
from ..model import MB, V0
from ..real import BibleVerse, BibleRange, BibleRangeList, V, R, F, apply, set_flags, outcome, rng, verse, flat, groups, kw, tup

RULE = ("A case is one verse or range and one combination of the string options and flags, in a random configuration; "
        "the string is parsed back as every reference type. Non-trivial: not the plain default rendering of a verse.")
CASES = {"quick": 36000, "thorough": 300000}
REQUIRED = {"verse": 1500, "range": 5000, "multibook": 300, "abbrev": 3000, "alt_sep": 3000, "nospace": 3000,
            "force_start_verses": 2500, "whole_book": 200, "whole_chap": 300, "whole_chaps": 200,
            "starts_whole_book": 300, "starts_whole_chap": 600, "ends_whole_chap": 600, "single_chapter_book": 500,
            "verse_0": 50, "by_operator": 500}


def fixed(tier):
    '''Every book and every chapter of the default Bible, plus a verse in each.'''
    b = model.bible({"k": "default"})
    out = []
    n = 0
    for z in (0, V0):
        vw = b.view(z)
        units = [vw.book[x] for x in b.order] + [vw.chap[k] for k in sorted(vw.chap)]
        for i, j in units:
            n += 1
            if z and vw.seq[i][2] and tier == "quick":
                continue
            out.append({"cfg": {"k": "default"}, "g": 0, "a": z, "t": "range", "x": list(vw.rng(i, j)),
                        "ab": bool(n & 1), "alt": bool(n & 2), "ns": bool(n & 4), "fs": bool(n & 8)})
    return out


def make(r, i, tier):
    cfg = model.random_cfg(r, 0.5)
    bible = model.bible(cfg)
    g, a = gen.pick_flags(r)
    t = "verse" if r.random() < 0.2 else "range"
    if t == "verse":
        a = None if r.random() < 0.5 else a
    c = {"cfg": cfg, "g": g, "a": a, "t": t}
    vw = bible.view(gen.eff(c) & V0)
    c["x"] = vw.seq[gen.pick_pos(r, vw)] if t == "verse" else gen.pick_range(r, vw, r.random() < 0.4)
    for o in ("ab", "alt", "ns", "fs"):
        c[o] = r.random() < 0.5
    return c


def run(case, m):
    bible = apply(case["cfg"])
    E = gen.eff(case)
    set_flags(case["g"])
    x = tup(case["x"])
    k = {"abbrev": case["ab"], "alt_sep": case["alt"], "nospace": case["ns"]}
    for n, o in (("abbrev", "ab"), ("alt_sep", "alt"), ("nospace", "ns"), ("force_start_verses", "fs")):
        if case[o]:
            m.ev(n)
    if any((case["ab"], case["alt"], case["ns"], case["fs"])) or case["t"] == "range":
        m.mark()
    vw = bible.view(E & V0)
    if case["t"] == "verse":
        v = V(x)
        if not (case["ab"] or case["alt"] or case["ns"]):
            s = str(v)
            m.ev("by_operator")
        else:
            s = v.str(**k)
        r = (x, x)
        back = outcome(lambda: BibleVerse(s, **kw(case)), verse)
        m.eq(back, ("ok", x), f"BibleVerse({s!r}), flags {case['g']}/{case['a']}, written for {x}")
        # A range of one verse reads back the same way
        if x[2] == 0:
            m.ev("verse_0")
    else:
        r = x
        o = R(r)
        if case["a"] is None and not any((case["ab"], case["alt"], case["ns"], case["fs"])):
            s = str(o)
            m.ev("by_operator")
        else:
            s = o.str(force_start_verses=case["fs"], **k, **kw(case))
        m.eq(rng(o), r, "the range after str()")
    m.ev(case["t"])
    if r[0][0] != r[1][0]:
        m.ev("multibook")
        E |= MB
    for name, on in (("whole_book", vw.whole_book(r)), ("whole_chap", vw.whole_chap(r)),
                     ("starts_whole_book", vw.spans(r, "start", "book")),
                     ("starts_whole_chap", vw.spans(r, "start", "chap")),
                     ("ends_whole_chap", vw.spans(r, "end", "chap")),
                     ("whole_chaps", vw.spans(r, "start", "chap") and vw.spans(r, "end", "chap")
                      and r[0][:2] != r[1][:2]),
                     ("single_chapter_book", 1 in (bible.nchaps(r[0][0]), bible.nchaps(r[1][0])))):
        if on:
            m.ev(name)
    what = f"{s!r} (flags {E}), written for {r} with {k}"
    m.eq(outcome(lambda: BibleRange(s, flags=F(E)), rng), ("ok", r), "BibleRange of " + what)
    m.eq(outcome(lambda: BibleRangeList(s, flags=F(E)), groups), ("ok", [[r]]), "BibleRangeList of " + what)
    if r[0] == r[1]:
        m.eq(outcome(lambda: BibleVerse(s, flags=F(E)), verse), ("ok", r[0]), "BibleVerse of " + what)
    set_flags(E)
    m.eq(outcome(lambda: BibleRange(s), rng), ("ok", r), "BibleRange, global flags, of " + what)
