'''The bridge to the code under test.  Uses only the public API of bibleref.'''
import random

import bibleref
from bibleref import BibleBook, BibleVerse, BibleRange, BibleRangeList, BibleFlag, BibleVersePart, BibleRefException
from bibleref.ref import InvalidReferenceError, MultibookRangeNotAllowedError, BibleRefParsingError
from bibleref import util, data
from bibleref.util import GroupedList, GroupViewError

from . import model
from .core import Violation

BOOK = {b.name: b for b in BibleBook}
ALL = BibleFlag.ALL
_FLAGS = {0: BibleFlag.NONE, 1: BibleFlag.MULTIBOOK, 2: BibleFlag.VERSE_0, 3: BibleFlag.MULTIBOOK | BibleFlag.VERSE_0}

_current = None


def F(n):
    return _FLAGS[n]


def reset_flags():
    bibleref.flags = BibleFlag.NONE


def set_flags(g):
    bibleref.flags = _FLAGS[g]


def apply(cfg):
    '''Configures the package for cfg and returns the reference model of it.'''
    global _current
    b = model.bible(cfg)
    key = repr(sorted(cfg.items()))
    if key == _current or (_current is None and cfg["k"] == "default"):
        return b
    bd = bibleref.bible_data()
    bd.book_order = [BOOK[x] for x in b.order]
    bd.max_verses = {BOOK[x]: list(b.max[x]) for x in b.order}
    bd.verse_0s = {BOOK[x]: set(b.v0[x]) for x in b.order if b.v0[x]}
    _current = key
    return b


# Some cases use every object before they check it: queries under other flags, whose answers nobody looks at, must
# leave no trace on the object.

_wear = None
wears = 0
_k = lambda n: lambda x: getattr(x, n)()
_USES = {
    "v": [_k(n) for n in ("str", "first_verse", "last_verse", "chap_range", "book_range", "is_first_in_chap",
                          "is_first_in_book", "is_last_in_chap", "is_last_in_book", "min_verse_num", "max_verse_num",
                          "verse_0_to_1", "verse_1_to_0")] +
         [lambda x: x.add(1), lambda x: x.subtract(1), hash, repr, lambda x: x <= x, lambda x: x == x],
    "r": [_k(n) for n in ("str", "verse_count", "chap_count", "book_count", "chap_range", "book_range", "is_whole_chap",
                          "is_whole_book", "spans_start_chap", "spans_end_chap", "spans_start_book", "spans_end_book",
                          "is_single_verse", "verse_0_to_1", "verse_1_to_0")] +
         [lambda x: x.chap_count(whole=True), lambda x: x.book_count(whole=True), hash, repr, lambda x: next(iter(x)),
          lambda x: x.contains(x), lambda x: x.start in x, lambda x: x.union(x), lambda x: x.is_adjacent(x),
          lambda x: x.split(by_chap=True), lambda x: x.split(by_book=True), lambda x: x.str(force_start_verses=True)],
    "l": [_k(n) for n in ("str", "verse_count", "chap_count", "book_count", "chap_range", "book_range", "range",
                          "to_nested_lists")] +
         [lambda x: x.chap_count(whole=True), repr, list, len, lambda x: [list(g) for g in x.groups], lambda x: x[0],
          lambda x: x[-1], lambda x: x.contains(x), lambda x: x.is_disjoint(x), lambda x: x.union(x),
          lambda x: x.str(preserve_groups=False), lambda x: x == x, lambda x: x.groups[0], lambda x: x.groups[-1]],
}


def wear(seed):
    global _wear
    _wear = None if seed is None else random.Random(seed)


def _worn(x, kind):
    global wears
    wears += 1
    g = bibleref.flags
    for use in _wear.sample(_USES[kind], 3):
        set_flags(_wear.randrange(4))
        try:
            use(x)
        except MemoryError:
            raise
        except Exception:
            pass
    bibleref.flags = g
    return x


def V(t):
    v = BibleVerse(BOOK[t[0]], t[1], t[2], flags=ALL)
    return v if _wear is None else _worn(v, "v")


def R(r):
    x = BibleRange(start=V(r[0]), end=V(r[1]), flags=ALL)
    return x if _wear is None else _worn(x, "r")


def L(groups):
    out = BibleRangeList()
    for g in groups:
        out.append_group([R(r) for r in g])
    return out if _wear is None else _worn(out, "l")


def verse(v):
    if not isinstance(v, BibleVerse):
        raise Violation(f"expected a BibleVerse, got {v!r}")
    return (v.book.name, v.chap_num, v.verse_num)


def overse(v):
    return None if v is None else verse(v)


def rng(r):
    if not isinstance(r, BibleRange):
        raise Violation(f"expected a BibleRange, got {r!r}")
    return (verse(r.start), verse(r.end))


def flat(lst):
    if not isinstance(lst, BibleRangeList):
        raise Violation(f"expected a BibleRangeList, got {lst!r}")
    out = [rng(r) for r in lst]
    if len(lst) != len(out):
        raise Violation(f"len() is {len(lst)}, iteration gives {len(out)} items")
    return out


def groups(lst):
    return [[rng(r) for r in g] for g in lst.groups]


def outcome(fn, obs=lambda x: x):
    '''("ok", observed value) or ("exc", exception type name).'''
    try:
        x = fn()
    except MemoryError:
        raise
    except Exception as e:
        return ("exc", type(e).__name__)
    return ("ok", obs(x))


def kw(case):
    '''The flags keyword argument of a case, if it passes one.'''
    return {} if case.get("a") is None else {"flags": _FLAGS[case["a"]]}


def tup(x):
    if isinstance(x, list):
        return tuple(tup(y) for y in x)
    return x
