'''C13: lists survive conversion to a string and back, with their groups.'''
from .. import model, gen
from ..model import MB, V0
from ..real import BibleRangeList, L, F, apply, set_flags, outcome, rng, flat, groups, kw, tup

RULE = ("A case is a non-empty list with random groups and one combination of the string options and flags in a random "
        "configuration; the string is parsed back and compared item by item and group by group. Non-trivial: at least "
        "two items.")
CASES = {"quick": 36000, "thorough": 300000}
REQUIRED = {"preserve_groups": 4000, "conventional": 3000, "multibook": 600, "abbrev": 2000, "alt_sep": 2000,
            "nospace": 2000, "force_start_verses": 2000, "items>=4": 2000, "groups>=2": 3000, "one_group": 1000,
            "chapter_after_verse_in_group": 200, "verse_after_chapter_in_group": 200, "book_in_group": 200,
            "book_change_in_group": 300, "by_operator": 200, "verse_0": 50, "single_chapter_book": 300}
SHRINK = ("x",)


def near_ranges(r, vw, n, mb):
    '''Items concentrated in one or two books, so that what is implied matters.'''
    b = r.choice(vw.bible.order)
    out = []
    for _ in range(n):
        if r.random() < 0.25:
            b = r.choice([b, vw.bible.order[min(vw.bible.bpos[b] + 1, len(vw.bible.order) - 1)],
                          r.choice(vw.bible.order)])
        lo, hi = vw.book[b]
        x = r.random()
        i = r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, min(hi, lo + 40))])
        if x < 0.08:
            i, j = lo, hi
        elif x < 0.3:
            i, j = vw.chap_of(i)
        elif x < 0.42:
            i = vw.chap_of(i)[0]
            j = vw.chap_of(min(hi, i + r.randint(0, 80)))[1]
        elif x < 0.6:
            j = i
        elif x < 0.72:
            j = r.randint(i, vw.chap_of(i)[1])
        elif x < 0.8:
            i = vw.chap_of(i)[0]
            j = min(hi, i + r.randint(0, 80))
        elif x < 0.9:
            j = min(hi, i + r.randint(0, 60))
            if r.random() < 0.5:
                j = vw.chap_of(j)[1]
        else:
            j = min(vw.n - 1, i + r.randint(0, 300))
            y = r.random()
            if y < 0.3:
                j = vw.book_of(j)[1]
            elif y < 0.5:
                j = vw.chap_of(j)[1]
            if y < 0.15:
                i = vw.book_of(i)[0]
            elif y > 0.8:
                i = vw.chap_of(i)[0]
        if not mb and vw.seq[i][0] != vw.seq[j][0]:
            j = vw.book_of(i)[1]
        out.append(list(vw.rng(i, j)))
        b = vw.seq[j][0] if r.random() < 0.9 else b
    return out


def make_list(r, vw, mb):
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, r.randint(1, 9)])
    x = r.random()
    if x < 0.01:                # now and then a long list
        n = r.randint(12, 40) if x < 0.008 else r.randint(100, 260)
    items = near_ranges(r, vw, n, mb) if r.random() < 0.75 else gen.pick_ranges(r, vw, mb, n)
    return gen.pick_groups(r, items)


def fixed(tier):
    return [{"cfg": {"k": "default"}, "g": 0, "a": None, "x": gen.long_list(1300, s, sh), "ab": False, "alt": False,
             "ns": False, "fs": False, "pg": pg} for s, sh, pg in ((2, False, True), (3, True, True), (2, True, False))]


def make(r, i, tier):
    cfg = model.random_cfg(r, 0.5)
    bible = model.bible(cfg)
    g, a = gen.pick_flags(r)
    c = {"cfg": cfg, "g": g, "a": a}
    vw = bible.view(gen.eff(c) & V0)
    c["x"] = make_list(r, vw, r.random() < 0.4)
    for o in ("ab", "alt", "ns", "fs"):
        c[o] = r.random() < 0.4
    c["pg"] = r.random() < 0.6
    return c


def options(case):
    k = {}
    for n, o in (("abbrev", "ab"), ("alt_sep", "alt"), ("nospace", "ns"), ("force_start_verses", "fs")):
        if case[o]:
            k[n] = True
    if not case["pg"]:
        k["preserve_groups"] = False
    return k


def run(case, m):
    bible = apply(case["cfg"])
    E = gen.eff(case)
    set_flags(case["g"])
    X = [list(g) for g in tup(case["x"])]
    X = [g for g in X if g]
    if not X:
        return
    items = [q for g in X for q in g]
    lst = L(X)
    k = options(case)
    for n in k:
        m.ev(n if n != "preserve_groups" else "conventional")
    if case["pg"]:
        m.ev("preserve_groups")
    if not k and case["a"] is None:
        s = str(lst)
        m.ev("by_operator")
    else:
        s = lst.str(**k, **kw(case))
    m.eq(groups(lst), X, "the list after str()")
    if len(items) > 1:
        m.mark()
    if any(q[0][0] != q[1][0] for q in items):
        m.ev("multibook")
        E |= MB
    what = f"{s!r} (flags {E}), written for {X} with {k}"
    back = outcome(lambda: BibleRangeList(s, flags=F(E)), lambda y: (flat(y), groups(y)))
    m.eq(back[0], "ok", f"{back[1]} parsing {what}; outcome")
    m.eq(back[1][0], items, "items of " + what)
    if case["pg"]:
        m.eq(back[1][1], X, "groups of " + what)
    stats(bible.view(E & V0), X, items, m)


def stats(vw, X, items, m):
    m.ev("items", len(items))
    if len(items) >= 4:
        m.ev("items>=4")
    m.ev("groups>=2" if len(X) > 1 else "one_group")
    for g in X:
        for p, q in zip(g, g[1:]):
            pc, qc = (vw.spans(y, "start", "chap") and vw.spans(y, "end", "chap") for y in (p, q))
            if qc and not pc:
                m.ev("chapter_after_verse_in_group")
            if pc and not qc:
                m.ev("verse_after_chapter_in_group")
            if p[1][0] != q[0][0]:
                m.ev("book_change_in_group")
            if vw.spans(q, "start", "book"):
                m.ev("book_in_group")
    if any(q[0][2] == 0 for q in items):
        m.ev("verse_0")
    if any(vw.bible.nchaps(q[0][0]) == 1 for q in items):
        m.ev("single_chapter_book")
