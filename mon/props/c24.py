'''C24: what references look like when written.'''
from .. import model, gen, interp, render, ops
from ..model import MB, V0, CANON
from ..real import (BibleVerse, BibleRange, BibleRangeList, BibleVersePart, V, R, L, F, apply, set_flags, outcome,
                    rng, flat, groups, kw, tup)
from . import c13

RULE = ("A case is one verse (with any verse_parts), range or list and one combination of the string options and flags "
        "in a random configuration; the text is compared with an independent renderer. Non-trivial: some option set, "
        "or a list of at least two items.")
CASES = {"quick": 180000, "thorough": 1000000}
REQUIRED = {"verse": 5000, "range": 10000, "list": 15000, "verse_parts": 3000, "abbrev": 10000, "alt_sep": 10000,
            "nospace": 10000, "force_start_verses": 8000, "conventional": 5000, "preserve_groups": 5000,
            "start_verse_forced": 200, "repr": 5000, "single_chapter_book": 2000, "minor_then_chapter": 300}
SHRINK = ("x",)
PARTS = {"b": BibleVersePart.BOOK, "c": BibleVersePart.CHAP, "v": BibleVersePart.VERSE}


def fixed(tier):
    return [{"t": "list", "cfg": {"k": "default"}, "g": 0, "a": None, "x": gen.long_list(1300, s, sh), "ab": False, "alt": False,
             "ns": False, "fs": False, "pg": pg} for s, sh, pg in ((2, False, True), (3, True, True), (2, True, False))]


def make(r, i, tier):
    x = r.random()
    if x < 0.5:
        c = c13.make(r, i, tier)
        c["t"] = "list"
        if r.random() < 0.02:
            c["x"] = []
        return c
    cfg = model.random_cfg(r, 0.5)
    bible = model.bible(cfg)
    g, a = gen.pick_flags(r)
    c = {"cfg": cfg, "g": g, "a": a, "t": "verse" if x < 0.65 else "range", "pg": True}
    if c["t"] == "verse":
        c["a"] = None
    vw = bible.view(gen.eff(c) & V0)
    c["x"] = [vw.seq[gen.pick_pos(r, vw)]] if c["t"] == "verse" else [gen.pick_range(r, vw, r.random() < 0.4)]
    for o in ("ab", "alt", "ns", "fs"):
        c[o] = r.random() < 0.4
    if c["t"] == "verse":
        c["fs"] = False
        if r.random() < 0.6:
            c["parts"] = r.choice(["b", "c", "v", "bc", "bv", "cv", "bcv", ""])
    return c


def run(case, m):
    bible = apply(case["cfg"])
    set_flags(case["g"])
    E = gen.eff(case)
    k = c13.options(case)
    for n in k:
        m.ev(n if n != "preserve_groups" else "conventional")
    ropts = {n: v for n, v in k.items() if n != "preserve_groups"}
    rd = render.Renderer(bible, E, CANON["names"], **ropts)
    t = case["t"]
    m.ev(t)
    if k:
        m.mark()
    if t == "verse":
        if not case["x"]:
            return
        x = tup(case["x"][0])
        parts = case.get("parts")
        o = V(x)
        want = rd.point(x, "bcv" if parts is None else parts)
        args = dict(k)
        if parts is not None:
            m.ev("verse_parts")
            p = BibleVersePart.NONE
            for ch in parts:
                p |= PARTS[ch]
            args["verse_parts"] = p
        m.eq(o.str(**args), want, f"{x}.str({args})")
        items = [(x, x)]
        rep = ("BibleVerse(%s)", render.Renderer(bible, E, CANON["names"], abbrev=True).point(x, "bcv"))
    elif t == "range":
        if not case["x"]:
            return
        x = tup(case["x"][0])
        o = R(x)
        want = rd.range(x)
        m.eq(o.str(**k, **kw(case)), want, f"{x}.str({k}, {kw(case)}), global {case['g']}")
        items = [x]
        sbook, schap, ebook, echap, single = rd.facts(x)
        if rd.fs and schap and not echap:
            m.ev("start_verse_forced")
        rep = ("BibleRange(%s)", render.Renderer(bible, case["g"], CANON["names"]).range(x)
               if all(bible.exists(e, case["g"] & V0) for e in x) else None)
    else:
        X = [list(g) for g in tup(case["x"]) if g]
        o = L(X)
        items = [q for g in X for q in g]
        want, majors = rd.list(X, case["pg"])
        if case["pg"]:
            m.ev("preserve_groups")
        if len(items) > 1:
            m.mark()
        m.eq(o.str(**k, **kw(case)), want, f"{X}.str({k}, {kw(case)}), global {case['g']}")
        for p, mj, q in zip(items, majors[1:], items[1:]):
            if not mj and rd.facts(q)[1]:
                m.ev("minor_then_chapter")
        rep = ('BibleRangeList("%s")', render.Renderer(bible, case["g"], CANON["names"]).list(X, True)[0]
               if all(bible.exists(e, case["g"] & V0) for q in items for e in q) else None)
    if rep[1] is not None:
        m.ev("repr")
        m.eq(repr(o), rep[0] % rep[1], f"repr, flags {case['g']}, of {items}")
        if t != "verse":
            m.eq(str(o), rep[1], f"str, flags {case['g']}, of {items}")
    if any(bible.nchaps(q[0][0]) == 1 for q in items):
        m.ev("single_chapter_book")
