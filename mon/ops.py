'''The public operations of the package, with generators for their arguments.'''
from . import gen, interp
from .model import MB, V0
from .real import *
from .setops import pick_operand, near_of
from .props import c13


def _opts(*names):
    def f(r, vw, near):
        return [], {n: True for n in names if r.random() < 0.4}
    return f


def _none(r, vw, near):
    return [], {}


def _chap(r, vw, near):
    return ([r.randint(1, 3)] if r.random() < 0.4 else []), {}


def _book(r, vw, near):
    return ([{"k": "b", "d": r.choice(vw.bible.order)}] if r.random() < 0.4 else []), {}


def _num(r, vw, near):
    return [r.choice([0, 1, 2, 3, 5, 30, 60, 200, 2000])], {}


def _num_or_verse(r, vw, near):
    if r.random() < 0.5:
        return [{"k": "v", "d": vw.seq[gen.pick_pos(r, vw, near)]}], {}
    return _num(r, vw, near)


def _ref(kinds):
    def f(r, vw, near):
        return [pick_operand(r, vw, kinds, r.random() < 0.4, near, 4)], {}
    return f


def _whole(r, vw, near):
    return [], ({"whole": True} if r.random() < 0.5 else {})


def _split(r, vw, near):
    k = {n: True for n in ("by_book", "by_chap") if r.random() < 0.4}
    if r.random() < 0.4:
        k["num_verses"] = r.choice([5, 7, 20, 50])
    if r.random() < 0.4:
        k["regroup"] = False
    return [], k


ANY = _ref(["v", "r", "r", "l"])
# (kind of receiver, method, arguments, takes flags, changes the receiver)
OPS = [
    ("b", "verse_count", _none, 1, 0), ("b", "min_verse_num", lambda r, vw, n: ([r.randint(1, 3)], {}), 1, 0),
    ("b", "first_verse", _chap, 1, 0), ("b", "range", _none, 1, 0),
    ("b", "chap_range", lambda r, vw, n: ([r.randint(1, 3)], {}), 1, 0),
    ("b", "chap_ranges", _opts("regroup"), 1, 0), ("b", "last_verse", _chap, 0, 0), ("b", "next", _none, 0, 0),
    ("b", "prev", _none, 0, 0),
    ("v", "add", _num, 1, 0), ("v", "subtract", _num_or_verse, 1, 0), ("v", "book_range", _none, 1, 0),
    ("v", "chap_range", _none, 1, 0), ("v", "first_verse", _chap, 1, 0), ("v", "is_first_in_book", _book, 1, 0),
    ("v", "is_first_in_chap", _chap, 1, 0), ("v", "min_verse_num", _chap, 1, 0), ("v", "last_verse", _chap, 0, 0),
    ("v", "verse_0_to_1", _none, 0, 0), ("v", "verse_1_to_0", _none, 0, 0),
    ("v", "str", _opts("abbrev", "alt_sep", "nospace"), 0, 0),
    ("r", "book_count", _whole, 1, 0), ("r", "chap_count", _whole, 1, 0), ("r", "verse_count", _none, 1, 0),
    ("r", "book_range", _none, 1, 0), ("r", "chap_range", _none, 1, 0), ("r", "difference", ANY, 1, 0),
    ("r", "intersection", ANY, 1, 0), ("r", "union", ANY, 1, 0), ("r", "sym_difference", ANY, 1, 0),
    ("r", "is_adjacent", ANY, 1, 0), ("r", "is_disjoint", ANY, 0, 0), ("r", "contains", ANY, 0, 0),
    ("r", "surrounds", ANY, 0, 0), ("r", "is_whole_book", _none, 1, 0), ("r", "is_whole_chap", _none, 1, 0),
    ("r", "spans_end_book", _none, 1, 0), ("r", "spans_end_chap", _none, 1, 0),
    ("r", "spans_start_book", _none, 1, 0), ("r", "spans_start_chap", _none, 1, 0), ("r", "split", _split, 1, 0),
    ("r", "str", _opts("abbrev", "alt_sep", "nospace", "force_start_verses"), 1, 0),
    ("r", "verse_0_to_1", _none, 0, 0), ("r", "verse_1_to_0", _none, 0, 0), ("r", "whole_bible", _none, 1, 0),
    ("l", "book_count", _whole, 1, 0), ("l", "chap_count", _whole, 1, 0), ("l", "verse_count", _none, 1, 0),
    ("l", "book_range", _none, 1, 0), ("l", "chap_range", _none, 1, 0), ("l", "range", _none, 0, 0),
    ("l", "contains", ANY, 1, 0), ("l", "is_disjoint", ANY, 0, 0), ("l", "difference", ANY, 1, 0),
    ("l", "intersection", ANY, 1, 0), ("l", "union", ANY, 1, 0), ("l", "sym_difference", ANY, 1, 0),
    ("l", "difference_update", ANY, 1, 1), ("l", "intersection_update", ANY, 1, 1), ("l", "union_update", ANY, 1, 1),
    ("l", "sym_difference_update", ANY, 1, 1), ("l", "merge", _none, 1, 1), ("l", "regroup", _none, 1, 1),
    ("l", "sort", _none, 0, 1), ("l", "verse_0_to_1", _none, 0, 1), ("l", "verse_1_to_0", _none, 0, 1),
    ("l", "str", _opts("abbrev", "alt_sep", "nospace", "force_start_verses"), 1, 0),
    ("l", "str", lambda r, vw, n: ([], {"preserve_groups": False}), 1, 0),
    ("l", "to_nested_lists", _none, 0, 0),
]
_max_chap = lambda r, vw, n: ([r.randint(1, 3)], {})
OPS += [
    ("b", "max_verse_num", _max_chap, 0, 0), ("b", "max_chap_num", _none, 0, 0), ("b", "chap_count", _none, 0, 0),
    ("v", "max_verse_num", _chap, 0, 0), ("v", "max_chap_num", _none, 0, 0), ("v", "is_last_in_chap", _chap, 0, 0),
    ("v", "is_last_in_book", _book, 0, 0), ("v", "__add__", _num, 0, 0), ("v", "__sub__", _num_or_verse, 0, 0),
    ("r", "is_single_verse", _none, 0, 0), ("r", "__contains__", ANY, 0, 0),
    ("l", "__contains__", ANY, 0, 0), ("l", "__len__", _none, 0, 0), ("l", "index", _ref(["r"]), 0, 0),
    ("l", "count", _ref(["r"]), 0, 0), ("l", "equals", _ref(["l"]), 0, 0), ("l", "__eq__", ANY, 0, 0),
    ("l", "__getitem__", lambda r, vw, n: ([r.choice([0, -1, 1, 2])], {}), 0, 0),
    ("l", "append", lambda r, vw, n: (_ref(["r"])(r, vw, n)[0], {"new_group": r.random() < 0.5}), 0, 1),
    ("l", "prepend", lambda r, vw, n: (_ref(["r"])(r, vw, n)[0], {"new_group": r.random() < 0.5}), 0, 1),
    ("l", "append_group", _ref(["l"]), 0, 1), ("l", "extend", _ref(["l", "r"]), 0, 1), ("l", "pop", _none, 0, 1),
    ("l", "insert", lambda r, vw, n: ([r.choice([0, 1, -1, 3])] + _ref(["r"])(r, vw, n)[0], {}), 0, 1),
    ("l", "remove", _ref(["r"]), 0, 1), ("l", "reverse", _none, 0, 1), ("l", "clear_groups", _none, 0, 1),
]
OPERATORS = {"union": "or", "intersection": "and", "difference": "sub", "sym_difference": "xor"}
for _n, _o in OPERATORS.items():
    OPS += [("r", f"__{_o}__", ANY, 0, 0), ("l", f"__{_o}__", ANY, 0, 0), ("l", f"__i{_o}__", ANY, 0, 1)]
for _k in "vrl":
    OPS += [(_k, "__str__", _none, 0, 0), (_k, "__repr__", _none, 0, 0)]
# what an operation without a flags argument is also written as
TWINS = {("v", "add"): "__add__", ("v", "subtract"): "__sub__", ("r", "str"): "__str__", ("l", "str"): "__str__",
         ("l", "contains"): "__contains__"}
for _n, _o in OPERATORS.items():
    TWINS[("r", _n)] = TWINS[("l", _n)] = f"__{_o}__"
    TWINS[("l", _n + "_update")] = f"__i{_o}__"


def receiver(r, vw, kind):
    if kind == "b":
        return {"k": "b", "d": r.choice(vw.bible.order)}
    if kind == "v":
        return {"k": "v", "d": vw.seq[gen.pick_pos(r, vw)]}
    if kind == "r":
        return {"k": "r", "d": gen.pick_range(r, vw, r.random() < 0.4)}
    if r.random() < 0.5:
        return {"k": "l", "d": c13.make_list(r, vw, r.random() < 0.4)}
    return pick_operand(r, vw, ["l"], r.random() < 0.4, [], 5)


def near(vw, o):
    if o["k"] == "b":
        return []
    if o["k"] == "v":
        return [vw.pos[tuple(o["d"])]]
    rs = [o["d"]] if o["k"] == "r" else [x for g in o["d"] for x in g]
    return near_of(vw, rs)


def make(o):
    '''The real object for an encoded one.'''
    if not isinstance(o, dict):
        return o
    d = tup(o["d"])
    return {"b": lambda: BOOK[d], "v": lambda: V(d), "r": lambda: R(d), "l": lambda: L(d)}[o["k"]]()


def see(x):
    '''An observation of any object an operation may take or return.'''
    if isinstance(x, BibleBook):
        return ("book", x.name)
    if isinstance(x, BibleVerse):
        return ("verse", verse(x))
    if isinstance(x, BibleRange):
        return ("range", rng(x))
    if isinstance(x, BibleRangeList):
        return ("list", flat(x), groups(x))
    if isinstance(x, (list, tuple)):
        return ("seq", [see(y) for y in x])
    return x
