'''C25: regrouping.'''
from .. import model, gen, interp, render
from ..model import MB, V0, CANON
from ..real import (BibleRangeList, L, F, apply, set_flags, outcome, rng, flat, groups, kw, tup)
from . import c13

RULE = ("A case is a list with random groups that is regrouped; items, order, idempotence and the groups are compared "
        "with those of the conventional string. Non-trivial: the groups changed.")
CASES = {"quick": 120000, "thorough": 900000}
REQUIRED = {"regrouped": 20000, "changed": 8000, "groups>=2": 10000, "joined": 2000, "multibook": 3000, "empty": 200,
            "independent_of_old_groups": 10000}
SHRINK = ("x",)


def fixed(tier):
    return [{k: c[k] for k in ("cfg", "g", "a", "x")} for c in c13.fixed(tier)]


def make(r, i, tier):
    c = c13.make(r, i, tier)
    if r.random() < 0.02:
        c["x"] = []
    return {k: c[k] for k in ("cfg", "g", "a", "x")}


def run(case, m):
    bible = apply(case["cfg"])
    set_flags(case["g"])
    E = gen.eff(case)
    X = [list(g) for g in tup(case["x"]) if g]
    items = [q for g in X for q in g]
    x = L(X)
    k = kw(case)
    w = f"regroup({k}) of {X}, global {case['g']}"
    m.eq(outcome(lambda: x.regroup(**k)), ("ok", None), w)
    m.ev("regrouped")
    m.eq(flat(x), items, "items after " + w)
    want = render.natural(bible, E, items, CANON["names"])
    got = groups(x)
    m.eq(got, want, w)
    if not items:
        m.ev("empty")
        return
    if any(q[0][0] != q[1][0] for q in items):
        m.ev("multibook")
    if got != X:
        m.ev("changed")
        m.mark()
    if len(got) > 1:
        m.ev("groups>=2")
    if any(len(g) > 1 for g in got):
        m.ev("joined")
    # the string that preserves the new groups is the conventional one
    for o in ({}, {"nospace": True, "abbrev": True}):
        m.eq(x.str(force_start_verses=True, **o, **k), x.str(force_start_verses=True, preserve_groups=False, **o, **k),
             "strings after " + w)
    x.regroup(**k)
    m.eq(groups(x), got, "doing it twice: " + w)
    y = BibleRangeList([r for r in x])
    y.regroup(**k)
    m.ev("independent_of_old_groups")
    m.eq(groups(y), got, "the same items in one group: " + w)
