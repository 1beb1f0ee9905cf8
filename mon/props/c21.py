'''C21: references are values: immutable, comparable, hashable; operations leave their operands alone and share nothing.'''
import copy
import operator
import os
import pickle
import random
import subprocess
import sys
from .. import model, gen, ops
from ..model import MB, V0
from ..real import (bibleref, BOOK, ALL, BibleBook, BibleVerse, BibleRange, BibleRangeList, V, R, L, F, apply,
                    set_flags, outcome, verse, rng, flat, groups, tup)

RULE = ("A case is either a set of verses and ranges whose equality, hash, order, copies and immutability are checked "
        "against tuples, or one public operation whose operands are observed before and after, and whose result and "
        "operands are then changed in turn, or several operations on one list, each compared with the same one on a new "
        "list of equal content. Non-trivial: equal values built in different ways, or a list involved.")
CASES = {"quick": 60000, "thorough": 900000}
REQUIRED = {"values": 5000, "pairs": 50000, "equal_pairs": 2000, "mutation_attempts": 20000, "operations": 20000,
            "result_lists_changed": 3000, "operand_lists_changed": 2000, "copies": 2000, "list_copies": 2000,
            "in_place": 2000, "aged": 2000, "aged_steps": 8000, "called_again": 3000, "called_afterwards": 3000, "other_process": 4, "other_types": 5000, "kept_over_changes": 500}
REQUIRED.update({f"{k}.{n}": 60 for k, n, *_ in ops.OPS})


def fixed(tier):
    out = [{"cfg": {"k": "default"}, "g": 3, "t": "copy", "x": gen.long_list(1300, s, sh)}
           for s, sh in ((2, False), (3, True))]
    out += [{"cfg": {"k": "default"}, "g": g, "t": "process", "seed": s} for g in (0, 3) for s in (1, 2)]
    return out


def make(r, i, tier):
    cfg = model.random_cfg(r, 0.55)
    bible = model.bible(cfg)
    vw = bible.view(r.random() < 0.5)
    c = {"cfg": cfg, "g": r.randrange(4)}
    x = r.random()
    if x < 0.2:
        ps = []
        for _ in range(r.randint(2, 5)):
            ps.append(gen.pick_pos(r, vw, ps))
        vs = [vw.seq[p] for p in ps]
        rs = gen.pick_ranges(r, vw, r.random() < 0.5, r.randint(1, 4), ps)
        if r.random() < 0.5:
            vs.append(r.choice(vs))
        if r.random() < 0.5:
            rs.append(r.choice(rs))
        rs.append([vs[0], vs[0]])
        c.update(t="values", vs=vs, rs=rs, turn=r.random() < 0.15)
    elif x < 0.3:
        c.update(t="copy", x=ops.receiver(r, vw, "l")["d"])
    elif x < 0.36:
        o = ops.receiver(r, vw, "l")
        steps = []
        for _ in range(r.randint(2, 6)):
            k, n, args, flagged, mut = r.choice(LIST_OPS)
            a, kwargs = args(r, vw, ops.near(vw, o))
            steps.append([n, a, kwargs, r.randrange(4), r.randrange(4) if flagged and r.random() < 0.6 else None])
            if r.random() < 0.3:
                steps.append([*steps[r.randrange(len(steps))][:3], r.randrange(4), None])
        c.update(t="aged", o=o, steps=steps)
    else:
        k, n, args, flagged, mut = ops.OPS[r.randrange(len(ops.OPS))]
        o = ops.receiver(r, vw, k)
        a, kwargs = args(r, vw, ops.near(vw, o))
        if r.random() < 0.06 and k == "l" and a and isinstance(a[0], dict):
            a = [{"k": "same"}]
        c.update(t="op", k=k, n=n, o=o, args=a, kw=kwargs, mut=mut)
    return c


LIST_OPS = [o for o in ops.OPS if o[0] == "l"]
ORDERS = [("<", operator.lt), ("<=", operator.le), (">", operator.gt), (">=", operator.ge)]


def frozen(m, x, names, see, what):
    before = see(x)
    for n in (*names, "something_new"):
        for f in (lambda: setattr(x, n, 5), lambda: delattr(x, n)):
            m.ev("mutation_attempts")
            out = outcome(f)
            m.check(out[0] == "exc", "%s: attribute %s could be changed", what, n)
    for name, other in (("+=", lambda y: y.__iadd__(1)), ("[]=", lambda y: y.__setitem__(0, 1))):
        m.check(outcome(lambda: other(x))[0] == "exc", "%s: %s worked in place", what, name)
    m.eq(see(x), before, what + " after attempts to change it")


def compare(m, a, b, ka, kb, what):
    m.ev("pairs")
    m.eq((a == b, a != b, a < b, a <= b, a > b, a >= b),
         (ka == kb, ka != kb, ka < kb, ka <= kb, ka > kb, ka >= kb), f"==, !=, <, <=, >, >= of {what}")
    if ka == kb:
        m.ev("equal_pairs")
        if a is not b:
            m.mark()
        m.eq(hash(a), hash(b), f"hashes of the equal {what}")


def run(case, m):
    bible = apply(case["cfg"])
    set_flags(case["g"])
    if case["t"] == "values":
        m.ev("values")
        values(case, m, bible)
        if case.get("turn"):
            turned(case, m)
    elif case["t"] == "copy":
        list_copy(case, m)
    elif case["t"] == "process":
        process(case, m)
    elif case["t"] == "aged":
        aged(case, m)
        set_flags(case["g"])
    else:
        operation(case, m)
    m.eq(bibleref.flags, F(case["g"]), "the global flags")


def values(case, m, bible):
    vs = [tup(v) for v in case["vs"]]
    rs = [tup(x) for x in case["rs"]]
    A = [V(v) for v in vs] + [BibleVerse(V(v)) for v in vs]
    KA = vs + vs
    B = [R(x) for x in rs] + [BibleRange(R(x)) for x in rs] + \
        [BibleRange(start=R(x).end, end=R(x).start, flags=ALL) for x in rs]
    KB = rs * 3
    for xs, ks, key in ((A, KA, bible.key), (B, KB, bible.rkey)):
        for i, x in enumerate(xs):
            for j, y in enumerate(xs):
                compare(m, x, y, key(ks[i]), key(ks[j]), f"{ks[i]} and {ks[j]}")
        m.eq(len(set(xs)), len(set(ks)), "number of distinct values")
        d = {x: k for x, k in zip(xs, ks)}
        for x, k in zip(xs, ks):
            m.eq(d.get(x), k, "dictionary lookup")
        see = verse if xs is A else rng
        m.eq([see(x) for x in sorted(xs)], sorted(ks, key=key), "sorted values")
        m.eq(see(max(xs)), max(ks, key=key), "max of values")
    for x, k, see in ((A[0], KA[0], verse), (B[0], KB[0], rng), (B[-1], KB[-1], rng)):
        for name, y in (("copy", copy.copy(x)), ("deepcopy", copy.deepcopy(x)),
                        ("pickle", pickle.loads(pickle.dumps(x)))):
            m.ev("copies")
            m.eq((see(y), y == x, hash(y) == hash(x)), (k, True, True), f"{name} of {k}")
        for other in (None, 5, "Mark 1:1", k, L([rs]), B[0] if see is verse else A[0]):
            m.ev("other_types")
            m.eq((x == other, x != other, other == x), (False, True, False), f"comparing {k} with {other!r}")
            for sign, f in ORDERS:
                m.eq(outcome(lambda: f(x, other)), ("exc", "TypeError"), f"{k} {sign} {other!r}")
    b = BOOK[vs[0][0]]
    for other in (None, 5, vs[0][0], b.title, A[0], B[0], L([rs])):
        m.ev("other_types")
        m.eq((b == other, b != other, other == b), (False, True, False), f"comparing {b!r} with {other!r}")
        for sign, f in ORDERS:
            m.eq(outcome(lambda: f(b, other)), ("exc", "TypeError"), f"{b!r} {sign} {other!r}")
    frozen(m, A[0], ("book", "chap_num", "verse_num"), verse, f"{vs[0]}")
    frozen(m, B[0], ("start", "end"), rng, f"{rs[0]}")


def turned(case, m):
    '''Values made before the configuration or the flags change, beside equal ones made afterwards.'''
    m.ev("kept_over_changes")
    ks = [tup(v) for v in case["vs"]] + [tup(x) for x in case["rs"]]
    mk = lambda k: R(k) if isinstance(k[0], tuple) else V(k)
    xs = [mk(k) for k in ks]
    hs = [hash(x) for x in xs]
    d = {x: k for x, k in zip(xs, ks)}
    bd = bibleref.bible_data()
    order = list(bd.book_order)
    try:
        bd.book_order = order[::-1]
        set_flags(case["g"] ^ 3)
        for x, k, h in zip(xs, ks, hs):
            m.eq((hash(x), d.get(x), x == x), (h, k, True), f"hash and dictionary entry of {k} in another book order")
            if not isinstance(k[0], tuple) or k[0][0] == k[1][0]:       # (ends in two books would be swapped)
                y = mk(k)
                m.eq((y == x, hash(y) == h, d.get(y)), (True, True, k), f"{k} made again in another book order")
    finally:
        bd.book_order = order
        set_flags(case["g"])


def list_copy(case, m):
    X = [list(g) for g in tup(case["x"]) if g]
    x = L(X)
    extra = BibleRange(BOOK[bibleref.bible_data().book_order[0].name])
    m.ev("list_copies")
    m.mark()
    for name, y in (("BibleRangeList(list)", BibleRangeList(x)),
                    ("BibleRangeList(nested lists)", BibleRangeList(x.to_nested_lists()))):
        m.eq((groups(y), y == x, x == y), (X, True, True), name + " of " + repr(X))
        y.append(extra)
        y.prepend(extra, new_group=True)
        y[-1] = extra
        m.eq(groups(x), X, f"the original after changing {name}")
        y = BibleRangeList(x)
        x.append(extra, new_group=True)
        m.eq(groups(y), X, f"{name} after changing the original")
        x.pop()
        m.eq(groups(x), X, "the original after undoing the change")
    for name, f in COPIES.items():
        y = f(x)
        m.ev("list_copies")
        w = f"{name} of {X}"
        m.eq((type(y) is BibleRangeList, y is x, groups(y), y == x, x == y), (True, False, X, True, True), w)
        m.eq(outcome(lambda: disturb(y, extra)), ("ok", None), "changing the " + w)
        m.eq((groups(y), groups(x)), ([[rng(extra)]], X), "copy and original after changing the " + w)
        y = f(x)
        x.append(extra, new_group=True)
        x.prepend(extra)
        m.eq(groups(y), X, f"{w} after changing the original")
        x.pop()
        x.pop(0)
        m.eq(groups(x), X, "the original after undoing the change")
        y.clear()
        m.eq(groups(f(y)), [], name + " of an empty list")
    m.eq(outcome(lambda: hash(x)), ("exc", "TypeError"), "hash of a list")


COPIES = {"copy.copy": copy.copy, "copy.deepcopy": copy.deepcopy}
COPIES.update({f"pickle (protocol {p})": (lambda x, p=p: pickle.loads(pickle.dumps(x, p)))
               for p in range(2, pickle.HIGHEST_PROTOCOL + 1)})

CHILD = """
import pickle, sys
from bibleref import *
import bibleref
bibleref.flags = BibleFlag(int(sys.argv[1]))
text, theirs = pickle.load(sys.stdin.buffer)
mine = BibleRangeList(text, flags=BibleFlag.ALL)
rs = list(mine)
vs = [v for x in rs for v in (x.start, x.end)]
ok = ([x in set(rs) for x in theirs[0]], [v in set(vs) for v in theirs[1]], [rs.index(x) for x in theirs[0]],
      [len({x, y}) for x, y in zip(theirs[0], rs)], [len({x, y}) for x, y in zip(theirs[1], vs)], theirs[2] == mine,
      [hash(x) == hash(y) for x, y in zip(theirs[0], rs)], [x < y for x, y in zip(theirs[0], rs[1:])])
sys.stdout.buffer.write(pickle.dumps((ok, rs, vs, mine)))
"""


def process(case, m):
    '''References sent to another process (with another hash seed) and back are the same values there.'''
    text = "Gen; Exod 3; Psa 3:0; 4-5; 6:1-7; Obad; Obad 3; Mal 4:6-Matt 1:2, 3; Jude 2-Rev 3"
    mine = BibleRangeList(text, flags=ALL)
    rs = list(mine)
    vs = [v for x in rs for v in (x.start, x.end)]
    hash(rs[0]), hash(vs[0]), {x: 1 for x in rs}, {v: 1 for v in vs}, str(mine)
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD, str(case["g"])],
                       input=pickle.dumps((text, (rs, vs, mine))), capture_output=True, timeout=300,
                       env=dict(os.environ, PYTHONHASHSEED=str(case["seed"])))
    m.check(p.returncode == 0, "another process could not use pickled references: %s", p.stderr.decode()[-500:])
    ok, rs2, vs2, mine2 = pickle.loads(p.stdout)
    n, k = len(rs), len(vs)
    m.eq(ok[:7], ([True] * n, [True] * k, [rs.index(x) for x in rs], [1] * n, [1] * k, True, [True] * n),
         "references unpickled in another process")
    m.eq(ok[7], [x < y for x, y in zip(rs, rs[1:])], "order of references unpickled in another process")
    m.eq((rs2, vs2, mine2, [x in set(rs) for x in rs2], [v in set(vs) for v in vs2], [hash(x) for x in rs2]),
         (rs, vs, mine, [True] * n, [True] * k, [hash(x) for x in rs]), "references back from another process")
    m.ev("other_process")
    m.mark()


def disturb(lst, extra):
    '''Change a list as thoroughly as possible.'''
    lst.append(extra, new_group=True)
    lst.prepend(extra)
    lst[len(lst) // 2] = extra
    lst.pop(0)
    lst.reverse()
    lst.clear_groups()
    while len(lst):
        lst.pop()
    lst.append(extra)


def called_afterwards(case, m, x, args, extra, w):
    '''The same call on lists that have changed in the meantime is that on new lists with the same content.'''
    lists = [y for y in [x] + args if isinstance(y, BibleRangeList) and len(y)]
    if not lists:
        return
    r = random.Random(w)
    for y in lists:
        if r.random() < 0.7:
            y[r.randrange(len(y))] = extra
        else:
            y.pop(r.randrange(len(y)))
            y.append(extra, new_group=r.random() < 0.5)
    copy = lambda y: L(groups(y)) if isinstance(y, BibleRangeList) else y
    new = [copy(y) for y in [x] + args]
    if any(a is x for a in args):
        new = [new[0]] + [new[0] if a is x else b for a, b in zip(args, new[1:])]
    m.ev("called_afterwards")
    n = case["n"]
    m.eq(outcome(lambda: getattr(x, n)(*args, **case["kw"]), ops.see),
         outcome(lambda: getattr(new[0], n)(*new[1:], **case["kw"]), ops.see),
         "the result, after changes to the list operands, compared with that on new equal ones, of " + w)


def aged(case, m):
    '''A list with a past, compared at every step with a new list of the same content.'''
    x = ops.make(case["o"])
    history = []
    m.ev("aged")
    m.mark()
    for n, args, kwargs, g, f in case["steps"]:
        set_flags(g)
        kw = dict(kwargs) if f is None else dict(kwargs, flags=F(f))
        new = L(groups(x))
        do = lambda y: (outcome(lambda: getattr(y, n)(*[ops.make(a) for a in args], **kw), ops.see), ops.see(y))
        got, want = do(x), do(new)
        history.append((n, args, kwargs, g, f))
        m.ev("aged_steps")
        m.eq(got, want, f"result and content of a list, compared with a new one of the same content, after {history} on {case['o']}")


def operation(case, m):
    x = ops.make(case["o"])
    args = [x if a == {"k": "same"} else ops.make(a) for a in case["args"]]
    n = case["n"]
    w = f"{case['o']}.{n}({case['args']}, {case['kw']}), flags {case['g']}"
    before = ops.see(x)
    abefore = [ops.see(a) for a in args]
    out = outcome(lambda: getattr(x, n)(*args, **case["kw"]))
    m.ev("operations")
    m.ev(f"{case['k']}.{n}")
    if case["mut"]:
        m.ev("in_place")
    else:
        m.eq(ops.see(x), before, "the receiver after " + w)
    same = any(a is x for a in args)
    if not (case["mut"] and same):
        m.eq([ops.see(a) for a in args], abefore, "the arguments after " + w)
    if out[0] == "exc":
        return
    res = out[1]
    extra = BibleRange(BOOK[bibleref.bible_data().book_order[-1].name])
    if isinstance(res, BibleRangeList):
        m.mark()
        if not case["mut"]:
            m.check(res is not x and not any(res is a for a in args), "%s returned one of its operands", w)
        if res is not x:
            keep = ops.see(res)
            for y in [x] + args:
                if isinstance(y, BibleRangeList):
                    m.ev("operand_lists_changed")
                    now = ops.see(y)
                    y.append(extra, new_group=True)
                    m.eq(ops.see(res), keep, "the result, after changing an operand, of " + w)
                    y.pop()
                    m.eq(ops.see(y), now, "an operand after undoing the change")
            xs, as_ = ops.see(x), [ops.see(a) for a in args]
            m.ev("result_lists_changed")
            disturb(res, extra)
            m.eq((ops.see(x), [ops.see(a) for a in args]), (xs, as_), "the operands, after changing the result, of " + w)
            if not case["mut"]:
                m.ev("called_again")
                m.eq(outcome(lambda: getattr(x, n)(*args, **case["kw"]), ops.see), ("ok", keep),
                     "the result of the same call again, after changing the first result, of " + w)
    if not case["mut"]:
        called_afterwards(case, m, x, args, extra, w)
    if case["mut"] and not same:
        for a in args:
            if isinstance(a, BibleRangeList):
                keep = ops.see(x)
                m.ev("operand_lists_changed")
                disturb(a, extra)
                m.eq(ops.see(x), keep, "the changed list, after changing the argument, of " + w)
