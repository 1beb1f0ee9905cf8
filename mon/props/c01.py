'''C01: exactly the verses of the configured Bible exist, and every book and verse query agrees with them.'''
from .. import model, gen
from ..model import CANON, MB, V0
from .. import real
from ..real import (BOOK, BibleVerse, BibleRange, BibleBook, F, V, apply, set_flags, outcome, verse, overse, rng, flat,
                    kw)

RULE = ("A case is one book of one configuration under one (global flags, flags argument) pair, whose every chapter "
        "number and verse number in and just outside its bounds is constructed and queried, or one tuple of malformed "
        "constructor arguments. Non-trivial: at least one constructor call was accepted and one rejected.")
CASES = {"quick": 30000, "thorough": 400000}
REQUIRED = {"constructed": 200000, "rejected": 30000, "book_queries": 3000, "verse_queries": 5000, "bad_args": 200,
            "whole_bible": 20, "by_name": 1000, "default_canon": 8, "absent_books": 1000}


def fixed(tier):
    out = [{"t": "canon"}] * 8
    for b in CANON["order"]:
        for g, a in ((0, None), (2, None), (0, 2), (3, 0), (1, None)):
            out.append({"t": "book", "cfg": {"k": "default"}, "g": g, "a": a, "b": b, "full": 1})
    return out


def gen_bad(r):
    return {"t": "bad", "b": r.choice(CANON["order"]), "k": r.randrange(12), "g": r.randrange(4),
            "n": [r.choice(["1", 1.0, 1.5, None, "x", [1], {}]), r.choice(["2", 2.0, None, [], "y"])]}


def gen_book(r, i):
    cfg = model.random_cfg(r, tiny=0.6)
    bible = model.bible(cfg)
    g, a = gen.pick_flags(r)
    return {"t": "book", "cfg": cfg, "g": g, "a": a, "b": r.choice(bible.order), "full": 0,
            "s": r.randrange(1 << 30)}


def make(r, i, tier):
    return gen_bad(r) if r.random() < 0.08 else gen_book(r, i)


def run(case, m):
    {"bad": run_bad, "book": run_book, "canon": run_canon}[case["t"]](case, m)


def run_canon(case, m):
    '''The default data, as shipped, against the frozen canon.'''
    if real._current is not None:
        apply({"k": "default"})
    m.ev("default_canon")
    from bibleref import data, bible_data
    m.eq([b.name for b in bible_data().book_order], CANON["order"], "default book order")
    m.eq({b.name: list(v) for b, v in bible_data().max_verses.items()}, CANON["max"], "default versification")
    m.eq({b.name: sorted(v) for b, v in bible_data().verse_0s.items() if v},
         {b: sorted(v) for b, v in CANON["v0"].items()}, "default verse 0s")
    m.eq(sum(b.verse_count(flags=F(0)) for b in bible_data().book_order), 31102, "verses in the Bible")
    m.eq(sum(b.verse_count(flags=F(2)) for b in bible_data().book_order), 31102 + 116, "verses incl. superscriptions")
    m.eq(sum(b.chap_count() for b in bible_data().book_order), 1189, "chapters in the Bible")
    m.eq(len(bible_data().book_order), 66, "books in the Bible")
    m.mark()


BAD = [
    lambda b, n: (), lambda b, n: (b,), lambda b, n: (b, 1), lambda b, n: (b, 1, 1, 1), lambda b, n: (None, 1, 1),
    lambda b, n: (5, 1, 1), lambda b, n: (b, n[0], 1), lambda b, n: (b, 1, n[1]), lambda b, n: (b, n[0], n[1]),
    lambda b, n: (1.5,), lambda b, n: (None,), lambda b, n: (b, 1, 1, None, None),
]


def run_bad(case, m):
    apply({"k": "default"})
    set_flags(case["g"])
    args = BAD[case["k"]](BOOK[case["b"]], case["n"])
    m.eq(outcome(lambda: BibleVerse(*args)), ("exc", "ValueError"), f"BibleVerse{args!r}")
    m.ev("bad_args")
    for name in ("Nosuch", "", "Zzz 3", "1", case["b"] + "#"):
        m.eq(outcome(lambda: BibleVerse(name, 1, 1)), ("exc", "InvalidReferenceError"), f"BibleVerse({name!r}, 1, 1)")
    m.mark()


def run_book(case, m):
    import random
    bible = apply(case["cfg"])
    set_flags(case["g"])
    E = gen.eff(case)
    z = bool(E & V0)
    k = kw(case)
    r = random.Random(case.get("s", 0))
    b = case["b"]
    book = BOOK[b]
    n = bible.nchaps(b)
    chaps = list(range(-1, n + 3)) + [10 ** 6]
    if not case["full"] and n > 4:
        chaps = [-1, 0, 1, n, n + 1] + r.sample(range(1, n + 1), 2)
    names = [book, book, CANON["names"][b][1], CANON["names"][b][0]]
    acc = rej = 0
    for c in chaps:
        last = bible.max[b][c - 1] if 1 <= c <= n else 3
        verses = list(range(-1, last + 3)) + [10 ** 6]
        if not case["full"] and last > 4:
            verses = [-2, -1, 0, 1, 2, last - 1, last, last + 1, last + 2]
        for v in verses:
            who = book
            if r.random() < 0.02:
                who = r.choice(names)
                m.ev("by_name")
            try:
                x = BibleVerse(who, c, v, **k)
                got = (x.book.name, x.chap_num, x.verse_num)
            except real.InvalidReferenceError:
                got = "invalid"
            want = (b, c, v) if bible.exists((b, c, v), z) else "invalid"
            if got == "invalid":
                rej += 1
            else:
                acc += 1
            if got != want:
                raise real.Violation(f"BibleVerse({who}, {c}, {v}, {k}) with global {case['g']}: got {got}, want {want}")
    m.ev("constructed", acc)
    m.ev("rejected", rej)
    m.ev("oracle_decisions", acc + rej)
    if acc and rej:
        m.mark()
    queries(case, m, bible, z, k, r, chaps)
    if len(bible.order) < 66:
        absent(case, m, bible, k, r)


def absent(case, m, bible, k, r):
    '''A book that the configured Bible does not have.'''
    b = r.choice([x for x in CANON["order"] if x not in bible.max])
    book = BOOK[b]
    w = f"the book {b}, not in the Bible {case['cfg']}"
    m.ev("absent_books")
    m.eq((book.order, book.next(), book.prev()), (None, None, None), "order of " + w)
    m.eq((book.chap_count(), book.max_chap_num(), book.verse_count(**k)), (0, 0, 0), "size of " + w)
    for c, v in ((0, 0), (0, 1), (1, 0), (1, 1), (-1, 1), (2, 3), (1, -1)):
        m.eq(outcome(lambda: BibleVerse(book, c, v, **k), verse), ("exc", "InvalidReferenceError"), f"{c}:{v} of {w}")
    for n, f in (("first_verse", book.first_verse), ("range", book.range)):
        m.eq(outcome(lambda: f(**k)), ("exc", "InvalidReferenceError"), f"{n}() of {w}")
    m.eq(outcome(lambda: book.last_verse()), ("exc", "InvalidReferenceError"), "last_verse() of " + w)
    for c in (0, 1):
        for n, f in (("min_verse_num", book.min_verse_num), ("max_verse_num", book.max_verse_num),
                     ("first_verse", book.first_verse), ("last_verse", book.last_verse), ("chap_range", book.chap_range)):
            m.eq(outcome(lambda: f(c)), ("exc", "InvalidReferenceError"), f"{n}({c}) of {w}")


def queries(case, m, bible, z, k, r, chaps):
    b = case["b"]
    book = BOOK[b]
    vw = bible.view(z)
    n = bible.nchaps(b)
    lo, hi = vw.book[b]
    m.ev("book_queries")
    m.eq(book.verse_count(**k), hi - lo + 1, f"{b}.verse_count({k})")
    m.eq(book.chap_count(), n, f"{b}.chap_count()")
    m.eq(book.min_chap_num(), 1, f"{b}.min_chap_num()")
    m.eq(book.max_chap_num(), n, f"{b}.max_chap_num()")
    m.eq(verse(book.first_verse(**k)), vw.seq[lo], f"{b}.first_verse({k})")
    m.eq(verse(book.last_verse()), vw.seq[hi], f"{b}.last_verse()")
    p = bible.bpos[b]
    m.eq(book.next(), BOOK[bible.order[p + 1]] if p + 1 < len(bible.order) else None, f"{b}.next()")
    m.eq(book.prev(), BOOK[bible.order[p - 1]] if p > 0 else None, f"{b}.prev()")
    m.eq(book.order, p, f"{b}.order")
    m.eq(rng(book.range(**k)), vw.rng(lo, hi), f"{b}.range({k})")
    allc = [vw.rng(*vw.chap[(b, c)]) for c in range(1, n + 1)]
    m.eq(flat(book.chap_ranges(**k)), allc, f"{b}.chap_ranges({k})")
    for c in chaps:
        what = f"{b} chapter {c} ({k}, global {case['g']})"
        if 1 <= c <= n:
            i, j = vw.chap[(b, c)]
            m.eq(book.min_verse_num(c, **k), vw.seq[i][2], "min_verse_num " + what)
            m.eq(book.max_verse_num(c), vw.seq[j][2], "max_verse_num " + what)
            m.eq(verse(book.first_verse(c, **k)), vw.seq[i], "first_verse " + what)
            m.eq(verse(book.last_verse(c)), vw.seq[j], "last_verse " + what)
            m.eq(rng(book.chap_range(c, **k)), vw.rng(i, j), "chap_range " + what)
        else:
            for f in (book.min_verse_num, book.max_verse_num, book.first_verse, book.last_verse, book.chap_range):
                m.eq(outcome(lambda: f(c)), ("exc", "InvalidReferenceError"), f"{f.__name__} " + what)
    # queries on verses
    for _ in range(6):
        q = r.choice([lo, hi, r.randint(lo, hi), r.choice(vw.chap_of(r.randint(lo, hi)))])
        t = vw.seq[q]
        x = V(t)
        i, j = vw.chap_of(q)
        c2 = r.randint(1, n)
        i2, j2 = vw.chap[(b, c2)]
        b2 = r.choice(bible.order)
        l2, h2 = vw.book[b2]
        m.ev("verse_queries")
        w = f"{t} ({k}, global {case['g']})"
        m.eq((x.min_chap_num(), x.max_chap_num()), (1, n), "chapter bounds of " + w)
        m.eq((x.min_verse_num(**k), x.max_verse_num()), (vw.seq[i][2], vw.seq[j][2]), "verse bounds of " + w)
        m.eq((x.min_verse_num(c2, **k), x.max_verse_num(c2)), (vw.seq[i2][2], vw.seq[j2][2]),
             f"verse bounds of chapter {c2} from " + w)
        m.eq((verse(x.first_verse(**k)), verse(x.last_verse())), vw.rng(i, j), "first/last verse from " + w)
        m.eq((verse(x.first_verse(c2, **k)), verse(x.last_verse(c2))), vw.rng(i2, j2),
             f"first/last verse of chapter {c2} from " + w)
        m.eq((x.is_first_in_chap(**k), x.is_last_in_chap()), (q == i, q == j), "is_first/last_in_chap of " + w)
        m.eq((x.is_first_in_chap(c2, **k), x.is_last_in_chap(c2)), (q == i2, q == j2), "is_first/last_in_chap2 of " + w)
        m.eq((x.is_first_in_book(**k), x.is_last_in_book()), (q == lo, q == hi), "is_first/last_in_book of " + w)
        m.eq((x.is_first_in_book(BOOK[b2], **k), x.is_last_in_book(BOOK[b2])), (q == l2, q == h2),
             f"is_first/last_in_book({b2}) of " + w)
        m.eq(rng(x.chap_range(**k)), vw.rng(i, j), "chap_range of " + w)
        m.eq(rng(x.book_range(**k)), vw.rng(lo, hi), "book_range of " + w)
        y = BibleVerse(x)
        m.check(y == x and verse(y) == t, "copy of %s is %s", x, y)
    if r.random() < 0.1:
        m.ev("whole_bible")
        m.eq(rng(BibleRange.whole_bible(**k)), vw.rng(0, vw.n - 1), f"whole_bible({k}), global {case['g']}")

