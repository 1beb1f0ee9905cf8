'''C03: construction of ranges.'''
from .. import model, gen
from ..model import CANON, MB, V0
from .. import real
from ..real import BOOK, BibleRange, V, R, F, apply, set_flags, outcome, rng, kw, tup

RULE = ("A case is one BibleRange construction: from two verses, from 1-6 positional arguments with random omissions, "
        "out-of-bounds numbers and reversed endpoints, or a copy, under random configuration and flags. Non-trivial: "
        "accepted with distinct endpoints, or rejected.")
CASES = {"quick": 320000, "thorough": 3000000}
REQUIRED = {"keyword": 5000, "positional": 20000, "copy": 1000, "accepted": 10000, "swapped": 2000, "multibook": 800,
            "multibook_refused": 800, "invalid": 5000, "omitted_end": 3000, "partial_end": 3000, "wrong_count": 300,
            "by_name": 1000, "unknown_start_book": 500, "unknown_end_book": 500}


def make(r, i, tier):
    cfg = model.random_cfg(r, 0.6)
    bible = model.bible(cfg)
    g, a = gen.pick_flags(r)
    c = {"cfg": cfg, "g": g, "a": a}
    E = gen.eff(c)
    vw = bible.view(bool(E & V0) or r.random() < 0.1)
    p = gen.pick_pos(r, vw)
    x = r.random()
    if x < 0.2:
        c["t"] = "keyword"
        q = gen.pick_pos(r, vw, [p])
        if r.random() < 0.6:
            q = r.randint(*vw.book_of(p))
        c["v"], c["w"] = vw.seq[p], vw.seq[q]
    elif x < 0.25:
        c["t"] = "copy"
        c["r"] = gen.pick_range(r, vw, True)
    elif x < 0.28:
        c["t"] = "count"
        c["k"] = r.randrange(6)
        c["v"] = vw.seq[p]
    elif x < 0.31:
        c["t"] = "badbook"
        c["v"], c["w"] = vw.seq[p], vw.seq[gen.pick_pos(r, vw, [p])]
        c["n"] = r.randint(2, 6)
        c["where"] = r.choice([0, 3]) if c["n"] > 3 else 0
        c["bad"] = r.choice(["Qwertz", "", "Gen 1", "5", 5, 0, 1.5, ["Gen"], "verse", "class"])
    else:
        c["t"] = "positional"
        q = gen.pick_pos(r, vw, [p])
        if r.random() < 0.6:
            q = r.randint(*vw.book_of(p))
        if r.random() < 0.2:
            q = r.randint(*vw.chap_of(p))
        s, e = list(vw.seq[p]), list(vw.seq[q])
        if r.random() < 0.75 and p > q:
            s, e = e, s
        for spec in (s, e):
            if r.random() < 0.07:
                k = r.choice([1, 2])
                spec[k] = r.choice([-1, 0, spec[k] + 1, spec[k] + 7, 200, 1000])
            elif r.random() < 0.1:
                spec[2] = bible.max[spec[0]][spec[1] - 1] + 1
        y = r.random()
        if y < 0.12:
            args = [s[0]]
        elif y < 0.24:
            args = s[:2]
        elif y < 0.34:
            args = s[:3]
        elif y < 0.5:
            args = s + e
        else:
            args = s + e
            for k in (1, 2, 3, 4, 5):
                if r.random() < 0.4:
                    args[k] = None
            if r.random() < 0.3:
                args = args[:r.randint(1, 6)]
            if r.random() < 0.02:
                args[0] = None
        c["args"] = args
        c["names"] = r.randrange(1, 3) if r.random() < 0.2 else 0
    return c


def allow(m, bible, t, u, E, swap=True):
    if t[0] != u[0] and not E & MB:
        return ("exc", "MultibookRangeNotAllowedError")
    if swap and bible.key(t) > bible.key(u):
        t, u = u, t
    return ("ok", (t, u))


def run(case, m):
    bible = apply(case["cfg"])
    set_flags(case["g"])
    E = gen.eff(case)
    k = kw(case)
    t = case["t"]
    if t == "count":
        v = V(case["v"])
        b = v.book
        f = [lambda: BibleRange(), lambda: BibleRange(start=v), lambda: BibleRange(end=v),
             lambda: BibleRange(b, 1, 1, b, 1, 1, 1), lambda: BibleRange(5), lambda: BibleRange(None)][case["k"]]
        m.eq(outcome(f), ("exc", "ValueError"), f"wrong number or type of arguments, form {case['k']}")
        m.ev("wrong_count")
        m.mark()
        return
    if t == "badbook":
        v, w = tup(case["v"]), tup(case["w"])
        args = [BOOK[v[0]], v[1], v[2], BOOK[w[0]], w[1], w[2]][:case["n"]]
        bad = {"verse": V(v), "class": type(BOOK["Gen"])}.get(case["bad"] if isinstance(case["bad"], str) else None, case["bad"])
        args[case["where"]] = bad
        m.eq(outcome(lambda: BibleRange(*args, **k), rng), ("exc", "InvalidReferenceError"), f"BibleRange(*{args!r})")
        m.ev("unknown_start_book" if case["where"] == 0 else "unknown_end_book")
        m.mark()
        return
    if t == "copy":
        r0 = tup(case["r"])
        x = R(r0)
        y = BibleRange(x)
        m.check(y == x and rng(y) == r0, "copy of %s is %s", x, y)
        m.ev("copy")
        return
    if t == "keyword":
        a, b = tup(case["v"]), tup(case["w"])
        want = allow(m, bible, a, b, E)
        got = outcome(lambda: BibleRange(start=V(a), end=V(b), **k), rng)
        m.eq(got, want, f"BibleRange(start={a}, end={b}, {k}), global {case['g']}")
        m.ev("keyword")
        if want[0] == "ok" and bible.key(a) > bible.key(b):
            m.ev("swapped")
        note(m, want)
        return
    args = case["args"]
    wants = expect(bible, E, args)
    real_args = list(args)
    for i in (0, 3):
        if i < len(args) and args[i] is not None:
            n = CANON["names"][args[i]]
            if case["names"] and len(args) > 1:
                m.ev("by_name")
                real_args[i] = n[case["names"] - 1]
            else:
                real_args[i] = BOOK[args[i]]
    got = outcome(lambda: BibleRange(*real_args, **k), rng)
    m.ev("positional")
    m.check(got in wants, "BibleRange%r (%s, global %s): got %s, want %s", tuple(args), k, case["g"], got, wants)
    if got[0] == "ok":
        m.check(bible.key(got[1][0]) <= bible.key(got[1][1]), "start after end in %s", got)
    if len(args) <= 3 or all(x is None for x in args[3:]):
        m.ev("omitted_end")
    elif None in args[3:]:
        m.ev("partial_end")
    if got[0] == "ok" and len(args) == 6 and None not in args and got[1][0] != tuple(args[:3]):
        m.ev("swapped")
    note(m, wants[0])


def note(m, want):
    if want[0] == "ok":
        m.ev("accepted")
        if want[1][0][0] != want[1][1][0]:
            m.ev("multibook")
        if want[1][0] != want[1][1]:
            m.mark()
    else:
        m.mark()
        m.ev("multibook_refused" if want[1].startswith("Multi") else "invalid")


INV = ("exc", "InvalidReferenceError")


def greater(bible, s, e):
    '''Is endpoint specification s after e, judged on the parts both give (omitted end parts are inherited)?'''
    eb = s[0] if e[0] is None else e[0]
    if eb != s[0]:
        return bible.bpos[s[0]] > bible.bpos[eb]
    if s[1] is None:
        return False
    if e[1] is not None and e[1] != s[1]:
        return s[1] > e[1]
    return s[2] is not None and e[2] is not None and s[2] > e[2]


def expect(bible, E, args):
    '''Acceptable outcomes of a positional construction.'''
    z = bool(E & V0)
    args = list(args) + [None] * (6 - len(args))
    s, e = args[:3], args[3:]
    if s[0] is None:
        return [INV, ("exc", "ValueError")]
    if greater(bible, s, e):
        sb, eb = s[0], (s[0] if e[0] is None else e[0])
        if sb == eb and (e[1] is None or s[1] == e[1]):     # same chapter: only the verses change places
            s, e = [s[0], s[1], e[2]], [e[0], e[1], s[2]]
        elif sb == eb:
            s, e = [sb, e[1], e[2]], [sb, s[1], s[2]]
        else:
            s, e = e, s
    if s[1] is None and s[2] is not None:
        return [INV]
    b, c, v = s
    # start
    def bad(b, c, v):
        return not (1 <= c <= bible.nchaps(b)) or (v is not None and not bible.exists((b, c, v), z))
    c1 = 1 if c is None else c
    if bad(b, c1, v):
        return [INV]
    start = (b, c1, bible.min_verse(b, c1, z) if v is None else v)
    if all(x is None for x in e):
        if v is not None:
            end = start
        else:
            ce = bible.nchaps(b) if c is None else c
            end = (b, ce, bible.max[b][ce - 1])
    else:
        eb = b if e[0] is None else e[0]
        if e[1] is None and e[2] is not None:
            if eb != b:
                return [INV]
            ce = c1
        else:
            ce = bible.nchaps(eb) if e[1] is None else e[1]
        if bad(eb, ce, e[2]):
            return [INV] + ([("exc", "MultibookRangeNotAllowedError")] if eb != b and not E & MB else [])
        end = (eb, ce, bible.max[eb][ce - 1] if e[2] is None else e[2])
    if start[0] != end[0] and not E & MB:
        return [("exc", "MultibookRangeNotAllowedError")]
    return [("ok", (start, end))]
