'''C27: wrong arguments are refused with an exception and leave everything as it was.'''
from .. import model, gen, ops
from ..real import (bibleref, BOOK, BibleBook, BibleVerse, BibleRange, BibleRangeList, BibleRefException,
                    InvalidReferenceError, MultibookRangeNotAllowedError, BibleRefParsingError, GroupViewError, F,
                    apply, set_flags)

RULE = ("A case is a verse, range or non-empty list and a value that is not a reference (or not a number): every "
        "operation is tried with it, must raise, and must leave the receiver, the flags and the configuration alone. "
        "Non-trivial: every case.")
CASES = {"quick": 40000, "thorough": 400000}
REQUIRED = {"refused": 200000, "verse": 3000, "range": 3000, "list": 3000, "exception_types": 1000,
            "missing_references": 3000, "partly_wrong": 10000, "compared_with_others": 30000}
BAD = [None, 5, 1.5, "Mark 3:4", "x", b"Mark", BibleBook.Mark, object(), True, ("Mark", 3, 4), Exception, 2 ** 70]
SETOPS = ("union", "intersection", "difference", "sym_difference")
OPERATORS = {"|": lambda x, y: x | y, "&": lambda x, y: x & y, "-": lambda x, y: x - y, "^": lambda x, y: x ^ y}


COMPARE = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}


def ior(x, y):
    x |= y


def iand(x, y):
    x &= y


def isub(x, y):
    x -= y


def ixor(x, y):
    x ^= y


def make(r, i, tier):
    cfg = model.random_cfg(r, 0.5)
    bible = model.bible(cfg)
    vw = bible.view(r.random() < 0.5)
    k = r.choice("vrl")
    o = ops.receiver(r, vw, k)
    while k == "l" and not any(o["d"]):
        o = ops.receiver(r, vw, k)
    return {"cfg": cfg, "g": r.randrange(4), "o": o, "bad": r.randrange(len(BAD)), "a": r.choice([None, 0, 1, 2, 3]),
            "n": r.randint(1, 200)}


def run(case, m):
    bible = apply(case["cfg"])
    set_flags(case["g"])
    o = case["o"]
    x = ops.make(o)
    bad = BAD[case["bad"]]
    k = {} if case["a"] is None else {"flags": F(case["a"])}
    before = ops.see(x)
    order = list(bibleref.bible_data().book_order)
    w = f"{o} with {bad!r} ({k})"

    def refused(name, f, types=(TypeError, ValueError)):
        m.ev("refused")
        m.ev("oracle_decisions")
        try:
            y = f()
        except types:
            pass
        except Exception as e:
            m.check(False, "%s: %s raised %s, not %s", name, w, type(e).__name__, [t.__name__ for t in types])
        else:
            m.check(False, "%s: %s was accepted and gave %r", name, w, y)
    if o["k"] == "v":
        m.ev("verse")
        if not isinstance(bad, int):
            refused("add", lambda: x.add(bad, **k), (TypeError,))
            refused("+", lambda: x + bad, (TypeError,))
            refused("subtract", lambda: x.subtract(bad, **k), (TypeError,))
            refused("-", lambda: x - bad, (TypeError,))
        refused("add(verse)", lambda: x.add(x, **k), (TypeError,))
        refused("BibleRange(start, bad)", lambda: BibleRange(start=x, end=bad, **k), (ValueError,))
        refused("BibleRange(bad, end)", lambda: BibleRange(start=bad, end=x, **k), (ValueError,))
        refused("BibleRange(start only)", lambda: BibleRange(start=x, **k), (ValueError,))
        if not isinstance(bad, str):
            refused("BibleVerse(bad)", lambda: BibleVerse(bad, **k), (ValueError,))
        if not isinstance(bad, BibleBook) and not isinstance(bad, str):
            refused("BibleRange(bad)", lambda: BibleRange(bad, **k), (ValueError,))
            refused("BibleVerse(bad, 1, 1)", lambda: BibleVerse(bad, 1, 1, **k), (ValueError,))
        if not isinstance(bad, int):
            refused("BibleVerse(book, bad, 1)", lambda: BibleVerse(x.book, bad, 1, **k), (ValueError,))
            refused("BibleVerse(book, 1, bad)", lambda: BibleVerse(x.book, 1, bad, **k), (ValueError,))
        refused("BibleVerse()", lambda: BibleVerse(**k), (ValueError,))
        refused("BibleVerse(book, chap)", lambda: BibleVerse(x.book, x.chap_num, **k), (ValueError,))
        refused("BibleVerse(4 arguments)", lambda: BibleVerse(x.book, x.chap_num, x.verse_num, 1, **k), (ValueError,))
        refused("BibleRange()", lambda: BibleRange(**k), (ValueError,))
        refused("BibleRange(7 arguments)", lambda: BibleRange(x.book, 1, 1, x.book, 1, 1, 1, **k), (ValueError,))
    else:
        m.ev("range" if o["k"] == "r" else "list")
        rs = [x] if o["k"] == "r" else list(x)
        plain = [rs, tuple(rs), rs[:1], [], set(rs)][case["n"] % 5]
        for n in SETOPS:                    # plain collections of ranges are not references
            refused(n + " a plain collection", lambda: getattr(x, n)(plain, **k))
            if o["k"] == "l":
                refused(n + "_update a plain collection", lambda: getattr(x, n + "_update")(plain, **k))
        for n, f in OPERATORS.items():
            refused(n + " a plain collection", lambda: f(x, plain))
        for n in SETOPS:
            refused(n, lambda: getattr(x, n)(bad, **k))
        for n, f in OPERATORS.items():
            refused(n, lambda: f(x, bad))
        for n in ("contains", "is_disjoint") + (("surrounds", "is_adjacent") if o["k"] == "r" else ()):
            refused(n, lambda: getattr(x, n)(bad))
        refused("in", lambda: bad in x)
        if o["k"] == "l":
            for n in SETOPS:
                refused(n + "_update", lambda: getattr(x, n + "_update")(bad, **k))
            for n, f in (("|=", ior), ("&=", iand), ("-=", isub), ("^=", ixor)):
                refused(n, lambda: f(x, bad))
            refused("append", lambda: x.append(bad), (TypeError,))
            refused("insert", lambda: x.insert(case["n"] % (len(x) + 1), bad), (TypeError,))
            refused("prepend", lambda: x.prepend(bad, new_group=True), (TypeError,))
            refused("[i] =", lambda: x.__setitem__(case["n"] % len(x), bad), (TypeError,))
            refused("append in a new group", lambda: x.append(bad, new_group=True), (TypeError,))
            refused("index", lambda: x.index(bad), (TypeError,))
            refused("count", lambda: x.count(bad), (TypeError,))
            refused("remove", lambda: x.remove(bad), (TypeError,))
            group = x.groups[case["n"] % len(x.groups)]
            refused("groups[i][j] =", lambda: group.__setitem__(case["n"] % len(group), bad), (TypeError,))
            far = len(x) + case["n"] - 1
            for n, i in (("far", far), ("negative", -far - 1)):
                for name, f in (("[i]", lambda: x[i]), ("[i] =", lambda: x.__setitem__(i, rs[0])),
                                ("del [i]", lambda: x.__delitem__(i)), ("pop", lambda: x.pop(i)),
                                ("groups[i]", lambda: x.groups[i])):
                    refused(f"{name}, {n} index", f, (IndexError,))
            for j in (len(group), len(group) + case["n"] % 5, far, -1):
                refused("groups[i][j]", lambda: group[j], (IndexError,))
                refused("groups[i][j] =", lambda: group.__setitem__(j, rs[0]), (IndexError,))
                refused("del groups[i][j]", lambda: group.__delitem__(j), (IndexError,))
            m.eq(ops.see(x), before, "the receiver after refusals: " + w)
            for name, f in (("extend", lambda y, z: y.extend(z)), ("append_group", lambda y, z: y.append_group(z)),
                            ("+=", lambda y, z: y.__iadd__(z))):
                y = ops.make(o)
                items = [rs[j % len(rs)] for j in range(case["n"] % 4)] + [bad, rs[0]]
                refused(f"{name} {case['n'] % 4} ranges and", lambda: f(y, items), (TypeError,))
                # the ranges before the refused item may have been added, as in Python's own sequences
                whole = ops.make(o)
                allowed = [ops.see(whole)]
                for j in range(case["n"] % 4):
                    whole.append(items[j], new_group=name == "append_group" and j == 0)
                    allowed.append(ops.see(whole))
                m.check(ops.see(y) in allowed, "%s of %s: afterwards %s", name, w, ops.see(y))
                m.ev("partly_wrong")
        else:
            refused("split", lambda: x.split(num_verses=case["n"] - 1 - 200, **k), (ValueError,))
    # comparisons with other kinds of things
    start = x if o["k"] == "v" else (x if o["k"] == "r" else x[0]).start
    kinds = [start.book, start, BibleRange(start=start, end=start, flags=F(3)), BibleRangeList([[
        BibleRange(start=start, end=start, flags=F(3))]])]
    for y in kinds:
        for z in kinds + [bad]:
            if type(z) is type(y):
                continue
            m.check(not (y == z) and y != z and not (z == y) and z != y, "%r equals %r", y, z)
            for n, f in COMPARE.items():
                refused(n, lambda: f(y, z), (TypeError,))
            m.ev("compared_with_others")
    m.eq(ops.see(x), before, "the receiver after refusals: " + w)
    m.eq((bibleref.flags, list(bibleref.bible_data().book_order)), (F(case["g"]), order),
         "the flags and book order after refusals: " + w)
    # references that do not exist: one documented kind of exception each, all of them BibleRefExceptions
    b = BOOK[bible.order[case["n"] % len(bible.order)]]
    last = b.max_chap_num()
    bre = (InvalidReferenceError,)
    refused("a chapter too many", lambda: BibleVerse(b, last + case["n"], 1, **k), bre)
    refused("chapter 0", lambda: BibleVerse(b, 0, 1, **k), bre)
    refused("a negative chapter", lambda: BibleRange(b, -case["n"], **k), bre)
    refused("a verse too many", lambda: BibleVerse(b, last, b.max_verse_num(last) + case["n"], **k), bre)
    refused("a negative verse", lambda: BibleVerse(b, 1, -case["n"], **k), bre)
    refused("max_verse_num", lambda: b.max_verse_num(last + case["n"]), bre)
    refused("min_verse_num", lambda: b.min_verse_num(0, **k), bre)
    refused("first_verse", lambda: b.first_verse(last + case["n"], **k), bre)
    refused("last_verse", lambda: b.last_verse(0), bre)
    refused("chap_range", lambda: b.chap_range(last + 1, **k), bre)
    refused("an unknown book", lambda: BibleVerse("Qwertz", 1, 1, **k), bre)
    refused("from_str", lambda: BibleBook.from_str("Qwertz", raise_error=True), bre)
    refused("an unknown book in a string", lambda: BibleRangeList("Qwertz 1:1", **k), (BibleRefParsingError,))
    refused("a chapter too many in a string", lambda: BibleRange(f"{b.title} {last}:9999", **k), (BibleRefParsingError,))
    m.ev("missing_references", 14)
    m.mark()
    for e in (InvalidReferenceError, MultibookRangeNotAllowedError, BibleRefParsingError, GroupViewError):
        m.ev("exception_types")
        m.check(issubclass(e, BibleRefException) and issubclass(BibleRefException, Exception),
                "%s is not a BibleRefException", e.__name__)
