'''C26: lists built from every documented source, and taken apart again.'''
import collections
from .. import model, gen
from ..model import MB, V0
from ..real import (BibleVerse, BibleRange, BibleRangeList, V, R, L, F, apply, set_flags, outcome, verse, rng, flat,
                    groups, kw, tup)
from . import c13

RULE = ("A case is a list with groups, built from plain ranges, nested lists and tuples, generators, other lists, views "
        "and group views, and taken apart again; or a source with an item of a wrong type. Non-trivial: at least two "
        "groups, or a refused item.")
CASES = {"quick": 80000, "thorough": 600000}
REQUIRED = {"flat": 5000, "nested": 5000, "copy": 5000, "views": 5000, "grown": 5000, "refused": 5000, "empty": 300, "long": 100,
            "multibook_without_flag": 800}
SHRINK = ("x",)


class MyList(list):
    pass


class MyTuple(tuple):
    pass


def fixed(tier):
    return [{k: c[k] for k in ("cfg", "g", "a", "x")} | {"bad": 0, "at": 1000, "empties": [True] * 3}
            for c in c13.fixed(tier)]


def make(r, i, tier):
    cfg = model.random_cfg(r, 0.6)
    bible = model.bible(cfg)
    vw = bible.view(r.random() < 0.5)
    g, a = gen.pick_flags(r)
    x = c13.make_list(r, vw, r.random() < 0.5)
    if r.random() < 0.03:
        x = []
    return {"cfg": cfg, "g": g, "a": a, "x": x, "bad": r.randrange(8), "at": r.randrange(1 << 16),
            "empties": [r.random() < 0.3 for _ in range(3)]}


def run(case, m):
    apply(case["cfg"])
    set_flags(case["g"])
    X = [list(g) for g in tup(case["x"]) if g]
    items = [q for g in X for q in g]
    rs = [[R(q) for q in g] for g in X]
    fl = [q for g in rs for q in g]
    one = [items] if items else []
    k = kw(case)
    w = f" of {X} ({k}, global {case['g']})"
    if not X:
        m.ev("empty")
    if len(X) > 1:
        m.mark()
    if len(items) > 30:
        m.ev("long")
    if any(q[0][0] != q[1][0] for q in items) and not gen.eff(case) & MB:
        m.ev("multibook_without_flag")

    def same(name, fn, want):
        m.eq(outcome(fn, lambda y: (flat(y), groups(y), len(y), bool(len(y)))),
             ("ok", ([q for g in want for q in g], want, sum(map(len, want)), bool(want))), name + w)
    B = BibleRangeList
    same("BibleRangeList()", lambda: B(**k), [])
    same("from a list of ranges", lambda: B(fl, **k), one)
    same("from a tuple of ranges", lambda: B(tuple(fl), **k), one)
    same("from a generator of ranges", lambda: B((q for q in fl), **k), one)
    m.ev("flat")
    nested = list(rs)
    for p, e in zip((0, len(nested) // 2, len(nested)), case["empties"]):
        if e:
            nested.insert(p, [])
    same("from nested lists", lambda: B(nested, **k), X)
    same("from nested tuples", lambda: B(tuple(tuple(g) for g in nested), **k), X)
    same("from a generator of lists", lambda: B((list(g) for g in nested), **k), X)
    same("from lists of a derived kind", lambda: B(MyList(MyTuple(g) if i % 2 else MyList(g) for i, g in enumerate(rs)), **k), X)
    same("from a deque of ranges", lambda: B(collections.deque(fl), **k), one)
    same("from the values of a dictionary", lambda: B(dict(enumerate(rs)).values(), **k), X)
    mixed = [q for i, g in enumerate(rs) for q in (g if i % 2 else [g])]
    m.eq(outcome(lambda: B(mixed, **k), flat), ("ok", items), "items, from ranges and lists together," + w)
    if len(rs) > 1:
        same("from several lists", lambda: B(*rs, **k), X)
    if len(fl) > 1:
        same("from several ranges", lambda: B(*fl, **k), one)
    m.ev("nested")
    x = L(X)
    same("a copy", lambda: B(x, **k), X)
    same("a copy of a copy", lambda: B(B(x, **k), **k), X)
    m.ev("copy")
    same("from an iterator of a list", lambda: B(iter(x), **k), one)
    same("from a reversed list", lambda: B(reversed(x), **k), [items[::-1]] if items else [])
    for p, g in enumerate(X[:5]):
        same(f"from group view {p}", lambda: B(x.groups[p], **k), [g])
        same(f"from group view {p - len(X)}", lambda: B(x.groups[p - len(X)], **k), [g])
        m.eq([rng(q) for q in x.groups[p]], g, f"items of group {p}" + w)
        m.eq((len(x.groups[p]), rng(x.groups[p][len(g) - 1])), (len(g), g[-1]), f"size and last of group {p}" + w)
    same("from nested group views", lambda: B([list(g) for g in x.groups], **k), X)
    m.ev("views")
    for how, (f, want) in {"append_group": (lambda y, src: y.append_group(src), X + one),
                           "extend": (lambda y, src: y.extend(src), X[:-1] + [X[-1] + items] if X else [])}.items():
        src = [lambda: fl, lambda: tuple(fl), lambda: (q for q in fl), lambda: B(fl), lambda: iter(L(X)), lambda: L(X),
               lambda: collections.deque(fl), lambda: map(lambda q: q, fl)][case["at"] % 8]

        def grown():
            y = L(X)
            f(y, src())
            return y
        same(f"{how} source {case['at'] % 8}", grown, want)
    m.ev("grown")
    m.eq(len(x.groups), len(X), "number of groups" + w)
    n = x.to_nested_lists()
    m.check(type(n) is list and all(type(g) is list for g in n), "to_nested_lists() gave %s", type(n))
    m.eq([[rng(q) for q in g] for g in n], X, "to_nested_lists()" + w)
    for g in n:
        g.clear()
    n.clear()
    m.eq(groups(x), X, "the list after changing to_nested_lists()" + w)
    m.eq([[rng(q) for q in g] for g in rs], X, "the source afterwards" + w)
    # refusals
    v = V(items[0][0]) if items else None
    bad = [5, None, "Mark 2:3", v, 1.5, {1}, object(), True][case["bad"]]
    p = case["at"] % (len(fl) + 1)
    src = fl[:p] + [bad] + fl[p:]
    for name, fn in (("list", lambda: B(src, **k)), ("generator", lambda: B((q for q in src), **k)),
                     ("nested list", lambda: B(rs + [[bad]], **k)), ("nested tuple", lambda: B([tuple(src)], **k))):
        m.eq(outcome(fn), ("exc", "TypeError"), f"from a {name} with {bad!r} among the ranges" + w)
    m.ev("refused")
    m.mark()
    for notit in (5, None, 1.5, object()):
        m.eq(outcome(lambda: B(notit, **k))[0] == "exc" or notit is None, True, f"BibleRangeList({notit!r})")
