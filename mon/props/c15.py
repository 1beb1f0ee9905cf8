'''C15: whatever the string, parsing either succeeds or fails with the documented exception and a position inside it.'''
import random
from .. import model, gen, interp, names
from ..model import MB, V0, CANON
from ..real import (BibleVerse, BibleRange, BibleRangeList, BibleRefParsingError, InvalidReferenceError,
                    BibleRefException, F, apply, set_flags, outcome, rng, verse, flat, groups, kw, tup)
from . import c14

RULE = ("A case is any string (mutated references, random text, Unicode, control characters, very long numbers): the "
        "exception type and reported position are monitored, and acceptance and meaning are compared with an "
        "independent recogniser. Non-trivial: the string is rejected, or accepted after a mutation.")
CASES = {"quick": 40000, "thorough": 500000}
REQUIRED = {"accepted": 2000, "rejected": 15000, "syntax_error": 8000, "bad_reference": 3000, "at_end": 500,
            "empty_or_blank": 100, "long_number": 150, "unicode": 2000, "as_verse": 2000, "as_range": 2000,
            "mutated_accepted": 500, "syntax_position": 8000, "position_exact": 4000, "position_in_word": 500}
READER = interp.Reader()
TEXT = ["Mark", "1 John", "Jude", "Ps", "Gen", "3", "119", "0", "1", " ", ":", ".", "-", ";", ",", "\n", "\t", "M",
        "é", "二", "٣", "１", "\u00a0", "\u2013", "\x00", "_", "!", "#", "I", "II ", "(", "\\", "\"", "'", "\ud800",
        "😀", "\u200b", "²", "ß", "\x0b", "\x1c", "\u0301", "ſ", "K"]


def make(r, i, tier):
    cfg = model.random_cfg(r, 0.3)
    g, a = gen.pick_flags(r)
    x = r.random()
    mut = False
    if x < 0.55:
        c = c14.make(r, i, tier)
        cfg, g, a = c["cfg"], c["g"], c["a"]
        s = interp.write(random.Random(c["ws"]), c["tree"], spaces=c["sp"])
        mut = True
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.randrange(len(s) + 1)
            y = r.random()
            if y < 0.3:
                s = s[:k] + s[k + 1:]
            elif y < 0.55:
                s = s[:k] + r.choice(TEXT) + s[k:]
            elif y < 0.7:
                s = s[:k] + r.choice(TEXT) + s[k + 1:]
            elif y < 0.8:
                s = s[:k]
            elif y < 0.9:
                s = s[k:]
            else:
                s = s[:k] + s[k:] + s[max(0, k - 5):k]
    elif x < 0.9:
        s = "".join(r.choice(TEXT) for _ in range(r.randint(0, r.choice([2, 5, 12, 30]))))
    elif x < 0.93:
        s = "".join(chr(r.choice([r.randrange(128), r.randrange(0x3000), r.randrange(0x11000)]))
                    for _ in range(r.randint(0, 20)))
    elif x < 0.95:
        s = r.choice(["", " ", "\n\n", "\t", " \r\n ", "\u00a0", ";", ",", "-", ":"]) * r.randint(0, 3)
    elif x < 0.97:
        n = r.choice([20, 100, 1000, 4299, 4300, 4301, 5000, 9000])
        d = r.choice("019") * n
        s = r.choice(["Mark %s", "Mark 2:%s", "Mark 2:3-%s", "%s", "%s John", "Mark 3; %s:4", "Jude %s", "Mark 2, %s"]) % d
    else:
        s = r.choice(["Mark 1:1" + ", 2" * r.randint(0, 60), "Mark 1" + "-2" * r.randint(2, 40),
                      "Mark 1" + ";" * r.randint(2, 50), "a " * r.randint(1, 80), "ab" * r.randint(1, 120),
                      "1 " * r.randint(1, 60), ":" * r.randint(1, 60), "Mark " * r.randint(1, 30)])
    return {"cfg": cfg, "g": g, "a": a, "s": s.encode("utf-8", "surrogatepass").decode("latin-1"), "mut": mut}


def position(e, s, m, what):
    m.check(type(e.start_pos) is int and type(e.end_pos) is int, "%s: position (%s, %s) of the error", what,
            e.start_pos, e.end_pos)
    m.check(0 <= e.start_pos <= e.end_pos <= len(s), "%s: position (%s, %s) of the error in a string of length %s",
            what, e.start_pos, e.end_pos, len(s))
    if e.start_pos == len(s):
        m.ev("at_end")


def run(case, m):
    bible = apply(case["cfg"])
    set_flags(case["g"])
    E = gen.eff(case)
    s = case["s"].encode("latin-1").decode("utf-8", "surrogatepass")
    k = kw(case)
    what = f"{s[:200]!r} (flags {case['g']}/{case['a']}, {case['cfg']})"
    if not s.strip():
        m.ev("empty_or_blank")
    if len(s) > 1000:
        m.ev("long_number")
    if any(ord(ch) > 127 for ch in s):
        m.ev("unicode")
    err = None
    try:
        lst = BibleRangeList(s, **k)
    except BibleRefParsingError as e:
        m.ev("rejected")
        m.mark()
        position(e, s, m, what)
        err = e
    except Exception as e:
        m.check(False, "BibleRangeList of %s raised %s: %s", what, type(e).__name__, e)
    else:
        m.ev("accepted")
        items = flat(lst)
        m.check(len(items) > 0, "BibleRangeList of %s is empty", what)
        for q in items:
            m.check(all(bible.exists(t, E & V0) for t in q) and bible.key(q[0]) <= bible.key(q[1])
                    and (E & MB or q[0][0] == q[1][0]), "BibleRangeList of %s contains the invalid range %s", what, q)
        if case["mut"]:
            m.ev("mutated_accepted")
            m.mark()
    # where it stops being the beginning of a reference string
    k0 = READER.wrong(s) if len(s) < 4000 else None
    if k0 is not None:
        m.check(err is not None, "%s is not a reference string (from %s on) but was read as %s", what, k0,
                None if err else groups(lst))
        p = err.start_pos
        m.ev("oracle_decisions", 2)
        m.check(p <= k0, "%s: the error is reported at %s, after character %s, which no reference string can have there",
                what, p, k0)
        m.check(not READER.seps & set(s[p:k0]), "%s: the error is reported at %s, but up to %s it is a reference string",
                what, p, k0)
        m.ev("position_exact" if p == k0 else "position_in_word")
        m.ev("syntax_position")
    # what an independent recogniser makes of it
    if len(s) < 4000 and all(ord(ch) < 128 or ch in "é二😀ß\u2013\ud800" for ch in s):
        tree = interp.read(s)
        if tree is None:
            m.ev("syntax_error")
            m.check(err is not None, "%s is not a reference string but was read as %s", what,
                    None if err else groups(lst))
        else:
            try:
                want = interp.meaning(tree, bible, E, names.default_lookup)
            except interp.Bad as bad:
                m.ev("bad_reference")
                m.check(err is not None, "%s is wrong (%s) but was read as %s", what, bad.why, None if err else groups(lst))
                m.eq((err.start_pos, err.end_pos), bad.span, f"position of the error ({bad.why}; {err}) in {what}")
            else:
                m.check(err is None, "%s is a reference string but was rejected: %s", what, err)
                m.eq(groups(lst), [list(g) for g in want], "groups of " + what)
    # the same string as a single range, and as a single verse
    for cls, name in ((BibleRange, "as_range"), (BibleVerse, "as_verse")):
        if random.Random(case["s"][:50] + name).random() > 0.25:
            continue
        m.ev(name)
        try:
            y = cls(s, **k)
        except BibleRefParsingError as e:
            position(e, s, m, f"{cls.__name__} of {what}")
            m.check(err is not None, "%s of %s raised %s", cls.__name__, what, e)
        except InvalidReferenceError as e:
            m.check(err is None and (len(items) > 1 or (name == "as_verse" and items[0][0] != items[0][1])),
                    "%s of %s raised %s", cls.__name__, what, e)
        except Exception as e:
            m.check(False, "%s of %s raised %s: %s", cls.__name__, what, type(e).__name__, e)
        else:
            m.check(err is None and len(items) == 1, "%s of %s was accepted", cls.__name__, what)
            m.eq(rng(y) if name == "as_range" else (verse(y), verse(y)), items[0], f"{cls.__name__} of {what}")
