'''C22: book names are recognised exactly as the name data says.'''
import itertools
import string
from .. import names
from ..model import CANON
from ..real import BOOK, BibleBook, BibleVerse, BibleRange, BibleRangeList, outcome, verse, rng

RULE = ("A case is one string, or a block of all short strings with a given beginning: BibleBook.from_str() and the "
        "constructors taking names are compared with a character-level reading of the name data. Non-trivial: the "
        "string names a book, or is one edit away from a string that does.")
CASES = {"quick": 120000, "thorough": 1000000}
REQUIRED = {"recognised": 15000, "rejected": 15000, "roman": 500, "blocks": 690, "constructors": 5000,
            "inner_whitespace": 500, "outer_whitespace": 3000, "too_short": 300, "books": 66}
NAMES = CANON["names"]


def fixed(tier):
    out = [{"t": "book", "b": b} for b in NAMES]
    for p in string.ascii_lowercase:
        for q in string.ascii_lowercase:
            out.append({"t": "block", "p": p + q})
    for p in ("1", "2", "3", "4", "0", "1 ", "2 ", "3 ", "I", "II", "III", "i ", "ii ", "iii ", "iv ", "IIII ", "11", ""):
        out.append({"t": "block", "p": p})
    for b, (ab, title, least, extra) in NAMES.items():
        pre = title[:2] if title[:2] in ("1 ", "2 ", "3 ") else ""
        body = title[len(pre):]
        pres = [""]
        if pre:
            d = pre[0]
            pres = [d, d + " ", d + "   ", d + "\t", names.ROMAN[d] + " ", names.ROMAN[d], names.ROMAN[d].lower() + "  ",
                    "", "4 ", " " + d, d + d + " ", d + "-", d + ". "]
        for p in pres:
            for n in range(1, len(body) + 1):
                out.append({"t": "s", "s": p + body[:n]})
        for x in [ab, title, title.replace(" ", "")] + extra + [y.replace(" ", "") for y in extra]:
            for y in (x, x.upper(), x.lower(), " " + x + "\n", x + "s", x + ".", x + " x", "x" + x):
                out.append({"t": "s", "s": y})
    return out


ALPHA = string.ascii_letters + "123 \t_.-éжИ"


def make(r, i, tier):
    b = r.choice(list(NAMES))
    s = names.spell(r, NAMES[b])
    near = True
    x = r.random()
    if x < 0.35:
        pass
    elif x < 0.85:
        for _ in range(r.choice([1, 1, 2])):
            k = r.randrange(len(s) + 1)
            y = r.random()
            if y < 0.3:
                s = s[:k] + s[k + 1:]
            elif y < 0.6:
                s = s[:k] + r.choice(ALPHA) + s[k:]
            elif y < 0.8:
                s = s[:k] + r.choice(ALPHA) + s[k + 1:]
            else:
                s = s[:k] + s[k + 1:k + 2] + s[k:k + 1] + s[k + 2:]
    elif x < 0.95:
        s = s[:r.randint(0, len(s))]
    else:
        s = "".join(r.choice(ALPHA) for _ in range(r.randint(0, 8)))
    if r.random() < 0.3:
        s = r.choice(["", " ", "\n", "\t "]) + s + r.choice(["", " ", "\r\n", "  "])
    return {"t": "s", "s": s}


def one(s, m):
    got = names.lookup(NAMES, s)
    m.check(len(got) <= 1, "%r names several books: %s", s, got)
    want = BOOK[got[0]] if got else None
    m.eq(BibleBook.from_str(s), want, f"BibleBook.from_str({s!r})")
    return want


def run(case, m):
    t = case["t"]
    if t == "block":
        m.ev("blocks")
        for n in (0, 1, 2) if len(case["p"]) < 2 or not case["p"].isalpha() else (0, 1):
            for tail in itertools.product(string.ascii_lowercase, repeat=n):
                one(case["p"] + "".join(tail), m)
                m.ev("block_strings")
        return
    if t == "book":
        m.ev("books")
        b, (ab, title, least, extra) = case["b"], NAMES[case["b"]]
        m.eq((BOOK[b].abbrev, BOOK[b].title), (ab, title), "abbreviation and title of " + b)
        for s in (ab, title, title.replace(" ", ""), *extra):
            m.eq(BibleBook.from_str(s), BOOK[b], f"BibleBook.from_str({s!r})")
        return
    s = case["s"]
    want = one(s, m)
    w = f"{s!r}"
    if want is None:
        m.ev("rejected")
        m.eq(outcome(lambda: BibleBook.from_str(s, raise_error=True)), ("exc", "InvalidReferenceError"),
             f"BibleBook.from_str({w}, raise_error=True)")
        m.eq(outcome(lambda: BibleVerse(s, 1, 1)), ("exc", "InvalidReferenceError"), f"BibleVerse({w}, 1, 1)")
        m.eq(outcome(lambda: BibleRange(s, 1, 1)), ("exc", "InvalidReferenceError"), f"BibleRange({w}, 1, 1)")
        if any(len(s.strip()) < len(e[1]) and e[1].lower().startswith(s.strip().lower()) for e in NAMES.values()):
            m.ev("too_short")
        m.mark()
        return
    m.ev("recognised")
    m.mark()
    st = s.strip()
    if st[:1] in "Ii" and st.split()[0].upper() in ("I", "II", "III"):
        m.ev("roman")
    if s != st:
        m.ev("outer_whitespace")
    if any(ch.isspace() for ch in st):
        m.ev("inner_whitespace")
    m.eq(BibleBook.from_str(s, raise_error=True), want, f"BibleBook.from_str({w}, raise_error=True)")
    m.ev("constructors")
    m.eq(outcome(lambda: BibleVerse(s, 1, 1), verse), ("ok", (want.name, 1, 1)), f"BibleVerse({w}, 1, 1)")
    v = (want.name, 1, 1)
    m.eq(outcome(lambda: BibleRange(s, 1, 1), rng), ("ok", (v, v)), f"BibleRange({w}, 1, 1)")
    m.eq(outcome(lambda: BibleRange(want, 1, 1, s, 1, 1), rng), ("ok", (v, v)), f"BibleRange(.., {w}, 1, 1)")
    if len(st) > 1 and not st[-1].isdigit() and all(ch.isalnum() or ch in " \t\n\r" for ch in st):
        n = CANON["max"][want.name]
        full = (v, (want.name, len(n), n[-1]))
        m.eq(outcome(lambda: BibleRange(s + "\n"), rng), ("ok", full), f"BibleRange({w})")
