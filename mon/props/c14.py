'''C14: reference strings mean what the documentation says they mean.'''
import random
from .. import model, gen, interp, names
from ..model import MB, V0, CANON
from ..real import (BibleVerse, BibleRange, BibleRangeList, BibleRefParsingError, F, apply, set_flags, outcome, rng,
                    verse, flat, groups, kw, tup)

RULE = ("A case is a syntax tree of a reference string, written out with random spelling and spacing and parsed by "
        "the package; ranges, groups and, for wrong references, the span reported are compared with an independent "
        "interpreter of the tree. Non-trivial: at least one part of a reference is implied by an earlier one.")
CASES = {"quick": 36000, "thorough": 500000}
REQUIRED = {"valid": 8000, "invalid": 1500, "err:no such verse": 300, "err:no such chapter": 200,
            "err:multibook": 100, "err:no book": 50, "err:book": 50, "dual": 4000, "swapped": 300, "bare_verse": 2000,
            "bare_chapter": 1500, "single_chapter_bare": 300, "trailing_sep": 1000, "groups>=2": 2000,
            "multibook": 500, "verse_0": 50, "as_range": 500, "as_verse": 100, "alt_sep": 1000}
SHRINK = ("tree",)


def single(r, bible, z, cur, first, entries=CANON["names"]):
    '''A reference, mostly a valid one in or near the book `cur` [book, verse level].'''
    s = {"b": None, "c": None, "v": None}
    b = cur[0]
    if first or r.random() < 0.3:
        if b is None or r.random() < 0.6:
            b = r.choice(bible.order)
        s["b"] = names.spell(r, entries[b])
        if r.random() < 0.01:
            s["b"] = r.choice(["Hesitations", "Jo", "4 John", "Jud", "Phi", "Mak", "II", "Iohn", "Ma rk", "The"])
        cur[0] = b
        cur[1] = False
    if b is None:
        b = r.choice(bible.order)
    one = bible.nchaps(b) == 1
    c = r.randint(1, bible.nchaps(b))
    v = r.randint(bible.min_verse(b, c, z), bible.max[b][c - 1])
    if r.random() < 0.3:
        v = r.choice([bible.min_verse(b, c, z), 1, bible.max[b][c - 1], min(2, bible.max[b][c - 1])])
    if r.random() < 0.02:
        v = r.choice([0, bible.max[b][c - 1] + 1, 999, bible.min_verse(b, c, True)])
    if r.random() < 0.015:
        c = r.choice([0, bible.nchaps(b) + 1, 151, 10 ** 30])
    x = r.random()
    if s["b"] is not None and x < 0.2:
        return s
    if x < 0.6:
        s["c"], s["v"] = c, v
        s["vs"] = r.choice(["std", "std", "alt"])
        cur[1], cur[2] = True, c
    elif one or (cur[1] and r.random() < 0.97):
        if not one and cur[2] is not None and 1 <= cur[2] <= bible.nchaps(b) and r.random() < 0.97:
            v = r.randint(bible.min_verse(b, cur[2], z), bible.max[b][cur[2] - 1])
        s["c"] = v
    else:
        s["c"] = c
    return s


def make(r, i, tier):
    cfg = model.random_cfg(r, 0.45)
    bible = model.bible(cfg)
    g, a = gen.pick_flags(r)
    c = {"cfg": cfg, "g": g, "a": a}
    E = gen.eff(c)
    cur = [None, False, None]
    tree = []
    n = r.choice([1, 1, 2, 3, 3, 4, 5, 6])
    if r.random() < 0.005:
        n = r.randint(10, 70)
    for k in range(n):
        ref = {"a": single(r, bible, bool(E & V0), cur, k == 0 and r.random() < 0.985), "b": None}
        if r.random() < 0.4:
            keep = cur[0]
            ref["b"] = single(r, bible, bool(E & V0), cur, False)
            if ref["b"]["b"] and not E & MB and keep and r.random() < 0.85:
                ref["b"]["b"] = names.spell(r, CANON["names"][keep])
                cur[0] = keep
                if ref["b"]["c"] is not None:
                    ref["b"]["c"] = r.randint(1, bible.nchaps(keep))
                    if ref["b"]["v"] is not None:
                        ref["b"]["v"] = r.randint(1, bible.max[keep][ref["b"]["c"] - 1])
                        cur[2] = ref["b"]["c"]
        ref["sep"] = r.choice(["major", "minor", "minor"])
        if ref["sep"] == "major":
            cur[1] = False
        tree.append(ref)
    if r.random() < 0.7:
        tree[-1]["sep"] = None
    c["tree"] = tree
    c["ws"] = r.randrange(1 << 20)
    c["sp"] = r.random() < 0.7
    return c


def run(case, m):
    bible = apply(case["cfg"])
    set_flags(case["g"])
    E = gen.eff(case)
    tree = [dict(t, a=dict(t["a"]), b=t["b"] and dict(t["b"])) for t in case["tree"]]
    if not tree:
        return
    s = interp.write(random.Random(case["ws"]), tree, spaces=case["sp"])
    if any(x and x["b"] and x["b"][-1:].isdigit() for t in tree for x in (t["a"], t["b"])):
        return
    what = f"{s!r} (flags {case['g']}/{case['a']}, {case['cfg']})"
    try:
        want = interp.meaning(tree, bible, E, names.default_lookup)
    except interp.Bad as bad:
        m.ev("invalid")
        m.ev("err:" + bad.why)
        m.mark()
        try:
            got = BibleRangeList(s, **kw(case))
        except BibleRefParsingError as e:
            m.eq((e.start_pos, e.end_pos), bad.span, f"position of the error ({bad.why}; {e}) in {what}")
        else:
            m.check(False, "%s is wrong (%s at %s) but was read as %s", what, bad.why, bad.span, groups(got))
        return
    m.ev("valid")
    out = outcome(lambda: BibleRangeList(s, **kw(case)), lambda y: (flat(y), groups(y)))
    m.eq(out[0], "ok", f"parsing {what} raised {out[1]}; outcome")
    items = [q for g in want for q in g]
    m.eq(out[1][0], items, "ranges of " + what)
    m.eq(out[1][1], [list(g) for g in want], "groups of " + what)
    stats(tree, bible, want, items, m)
    if len(items) == 1:
        m.eq(outcome(lambda: BibleRange(s, **kw(case)), rng), ("ok", items[0]), "BibleRange of " + what)
        m.ev("as_range")
        single = items[0][0] == items[0][1]
        out = outcome(lambda: BibleVerse(s, **kw(case)), verse)
        if single:
            m.ev("as_verse")
            m.eq(out, ("ok", items[0][0]), "BibleVerse of " + what)
        else:
            m.eq(out, ("exc", "InvalidReferenceError"), "BibleVerse of " + what)
    else:
        m.eq(outcome(lambda: BibleRange(s, **kw(case)), rng), ("exc", "InvalidReferenceError"), "BibleRange of " + what)


def stats(tree, bible, want, items, m):
    verses = False
    book = None
    if tree[-1]["sep"]:
        m.ev("trailing_sep")
    if len(want) > 1:
        m.ev("groups>=2")
    if any(q[0][0] != q[1][0] for q in items):
        m.ev("multibook")
    if any(q[0][2] == 0 for q in items):
        m.ev("verse_0")
    for t, q in zip(tree, items):
        if t["b"]:
            m.ev("dual")
        for x in (t["a"], t["b"]):
            if not x:
                continue
            if x["b"]:
                book, verses = names.default_lookup(x["b"]), False
            if x["v"] is not None:
                verses = True
                if x.get("vs") == "alt":
                    m.ev("alt_sep")
            if x["b"] is None:
                m.mark()
                if x["v"] is None:
                    m.ev("single_chapter_bare" if bible.nchaps(book) == 1 else
                         "bare_verse" if verses else "bare_chapter")
        if t["b"] and t["a"]["v"] is not None and t["b"]["b"] is None:
            if (q[0][1], q[0][2]) != (t["a"]["c"], t["a"]["v"]):
                m.ev("swapped")
        if t["sep"] == "major":
            verses = False
