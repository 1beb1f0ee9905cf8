'''Shared by the set-algebra monitors: operands, and the oracle for canonical results.'''
from . import gen
from .model import MB, V0
from .real import BibleVerse, BibleRange, BibleRangeList, V, R, L, F, verse, rng, flat, groups, outcome, tup

OPS = {"union": lambda a, b: a | b, "intersection": lambda a, b: a & b,
       "difference": lambda a, b: a & ~b, "sym_difference": lambda a, b: a ^ b}


def pick_operand(r, vw, kinds, multibook, near, hi=6):
    k = r.choice(kinds)
    if k == "v":
        return {"k": "v", "d": vw.seq[gen.pick_pos(r, vw, near)]}
    if k == "r":
        return {"k": "r", "d": gen.pick_range(r, vw, multibook, near)}
    items = gen.pick_ranges(r, vw, multibook, gen.nitems(r, hi), near)
    return {"k": "l", "d": gen.pick_groups(r, items)}


def ranges_of(o):
    '''The ranges of an operand, as model ranges.'''
    d = tup(o["d"])
    if o["k"] == "v":
        return [(d, d)]
    if o["k"] == "r":
        return [d]
    return [x for g in d for x in g]


def build(o):
    d = tup(o["d"])
    return V(d) if o["k"] == "v" else R(d) if o["k"] == "r" else L(d)


def observe(o, x):
    return verse(x) if o["k"] == "v" else rng(x) if o["k"] == "r" else groups(x)


def near_of(vw, ranges):
    return [p for r in ranges for p in (vw.pos[tuple(r[0])], vw.pos[tuple(r[1])])]


def multibook(rs):
    return any(r[0][0] != r[1][0] for r in rs)


def crossings(vw, rs):
    '''Positions p such that some range covers both p and p+1 in different books.'''
    out = set()
    for r in rs:
        i, j = vw.span(r)
        p = vw.book_of(i)[1]
        while p < j:
            out.add(p)
            p = vw.book_of(p + 1)[1]
    return out


def canonical(m, vw, got, want_mask, operands, E, what):
    '''got covers exactly want_mask, and is the smallest sorted list of disjoint, non-adjacent ranges doing so.'''
    prev = None
    mask = 0
    cross = None
    for r in got:
        i, j = vw.span(r)
        m.check(i <= j, "%s: backwards range %s", what, r)
        if prev is not None:
            m.check(prev < i, "%s: not sorted or not disjoint: %s", what, got)
            if prev + 1 == i and (E & MB or vw.seq[prev][0] == vw.seq[i][0]):
                m.check(False, "%s: adjacent ranges not merged: %s", what, got)
        if r[0][0] != r[1][0] and not E & MB:
            if cross is None:
                cross = crossings(vw, operands)
            m.check(crossings(vw, [r]) <= cross, "%s: created the multi-book range %s", what, r)
        prev = j
        mask |= vw.mask(r)
    if mask != want_mask:
        extra, lost = mask & ~want_mask, want_mask & ~mask
        m.check(False, "%s: result %s has extra verses %s and lacks %s", what, got[:8],
                vw.runs(extra, True)[:4], vw.runs(lost, True)[:4])
    m.ev("results_canonical")


def classify(a, b, vw):
    '''How two sets of verses relate, for the statistics.'''
    if not a or not b:
        return "empty"
    if a == b:
        return "equal"
    if a & b == 0:
        return "adjacent" if (a << 1) & b or (b << 1) & a else "disjoint"
    if a & b == b:
        return "contains"
    if a & b == a:
        return "inside"
    return "overlap"
