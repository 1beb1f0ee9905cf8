'''C28: iterators are independent of each other, and any number of threads may read the same references.'''
import hashlib
import itertools
import random
import sys
import threading
from .. import model, gen, ops, sched
from ..model import MB, V0
from ..real import (bibleref, BibleRange, BibleRangeList, F, apply, set_flags, outcome, verse, rng, flat, groups, tup)

RULE = ("A case is either a set of iterators over the same range, list, groups or group views, stepped in a random "
        "order, nested or abandoned, or a set of threads that query, iterate, compare, write and compute with the same "
        "objects under a seeded line-level schedule or free-running; every result is compared with that of the same "
        "call alone, on equal objects of its own. Non-trivial: at least two iterators under way at once, or a "
        "schedule with at least three switches.")
WEAR = False         # the threads share the global flags
CASES = {"quick": 9000, "thorough": 120000}
REQUIRED = {"interleaved": 1500, "nested": 800, "abandoned": 600, "scheduled": 1000, "free_running": 150,
            "switches": 2000, "shared_calls": 5000, "over_list": 500, "over_reversed": 500, "over_groups": 500,
            "over_view": 500, "over_range": 500}
SHRINK = ("calls",)
READS = ["iter", "reversed", "groups", "view", "index", "eq", "in", "len", "copy", "order"]


def make(r, i, tier):
    cfg = model.random_cfg(r, 0.6)
    vw = model.bible(cfg).view(r.random() < 0.5)
    c = {"cfg": cfg, "g": r.randrange(4)}
    x = some_list(r, vw)
    if i % 10 < 5:
        rg = gen.pick_range(r, vw, r.random() < 0.4)
        p, q = vw.pos[tuple(rg[0])], vw.pos[tuple(rg[1])]
        if q - p > 60:
            rg = [rg[0], vw.seq[p + r.randint(0, 60)]]
        c.update(t="iters", x=x, rg=rg, seed=r.randrange(1 << 30), how=r.choice(["mixed", "mixed", "nested"]))
        return c
    pool = [x, some_list(r, vw), ops.receiver(r, vw, "r"), ops.receiver(r, vw, "v")]
    readers = [o for o in ops.OPS if not o[4] and o[0] != "b"]
    calls = []
    for _ in range(r.randint(2, 4)):
        mine = []
        for _ in range(r.randint(1, 3)):
            if r.random() < 0.4:
                mine.append({"n": "read", "what": r.choice(READS), "w": r.randrange(2), "s": r.randrange(1 << 16)})
                continue
            k, n, args, flagged, _m = r.choice(readers)
            w = [j for j, o in enumerate(pool) if o["k"] == k]
            w = r.choice(w)
            a, kw = args(r, vw, ops.near(vw, pool[w]))
            a = [{"w": r.randrange(4)} if isinstance(y, dict) and y["k"] in "vrl" and (k, n) != ("v", "subtract")
                 and r.random() < 0.7 else y for y in a]
            mine.append({"n": n, "w": w, "a": a, "kw": kw, "E": r.randrange(4) if flagged and r.random() < 0.5 else None})
        calls.append(mine)
    if i % 10 == 9 or i < 8 and i % 2:
        c["t"] = "free"
    else:
        c["t"] = "sched"
    c.update(pool=pool, calls=calls, seed=r.randrange(1 << 30), rate=r.choice([0.02, 0.1, 0.3, 0.6, 1.0]))
    return c


def some_list(r, vw):
    while True:
        x = ops.receiver(r, vw, "l")
        if any(x["d"]):
            return x


def reading(x, y, what, s):
    '''One of the ways to read the list x (and compare it with y).'''
    if what == "iter":
        return [rng(q) for q in x]
    if what == "reversed":
        return [rng(q) for q in reversed(x)]
    if what == "groups":
        return [[rng(q) for q in g] for g in x.groups], len(x.groups)
    if what == "view":
        n = len(x.groups)
        v = x.groups[s % n]
        return [rng(v[j]) for j in range(len(v))], [rng(q) for q in v], [rng(q) for q in x.groups[s % n - n]]
    if what == "index":
        n = len(x)
        order = list(range(n))
        random.Random(s).shuffle(order)
        return [rng(x[j]) for j in order[:40]], [rng(x[j - n]) for j in order[:40]], [rng(x[j]) for j in range(min(n, 40))]
    if what == "eq":
        return x == y, y == x, x.equals(y), x.equals(y, compare_groups=False), x == BibleRangeList(x)
    if what == "in":
        return [q in y for q in x], [y.count(q) for q in x], [x.index(q) for q in x]
    if what == "len":
        return len(x), bool(x), len(x.groups), [len(g) for g in x.groups]
    if what == "copy":
        return groups(BibleRangeList(x)), x.to_nested_lists() == y.to_nested_lists()
    return [[rng(a) for a in sorted(x)], [rng(min(x)), rng(max(y))], [hash(a) == hash(b) for a, b in zip(x, y)]]


def perform(pool, call):
    if call["n"] == "read":
        return outcome(lambda: reading(pool[call["w"]], pool[1 - call["w"]], call["what"], call["s"]))
    args = [pool[a["w"]] if isinstance(a, dict) and "w" in a else ops.make(a) for a in call["a"]]
    kw = dict(call["kw"])
    if call["E"] is not None:
        kw["flags"] = F(call["E"])
    out = outcome(lambda: getattr(pool[call["w"]], call["n"])(*args, **kw))
    return (out[0], ops.see(out[1])) if out[0] == "ok" else out


SEEN = set()


def run(case, m):
    apply(case["cfg"])
    set_flags(case["g"])
    if case["t"] == "iters":
        return iters(case, m)
    want = [[perform([ops.make(o) for o in case["pool"]], call) for call in mine] for mine in case["calls"]]
    pool = [ops.make(o) for o in case["pool"]]
    before = [ops.see(o) for o in pool]
    m.ev("shared_calls", sum(len(x) for x in want))
    jobs = [(lambda mine=mine: [perform(pool, call) for call in mine]) for mine in case["calls"]]
    if case["t"] == "sched":
        m.ev("scheduled")
        sc = sched.Scheduler(case["seed"], case["rate"])
        res = sc.run(jobs)
        m.ev("switches", len(sc.trace))
        m.ev("lines_traced", sc.lines)
        if sc.free:
            m.ev("fell_back_to_free_running")
        if len(sc.trace) >= 3:
            m.mark()
        SEEN.add(hashlib.blake2b(repr(sc.trace).encode(), digest_size=8).hexdigest())
    else:
        m.ev("free_running")
        m.mark()
        res = free(jobs)
    for i, (got, exp) in enumerate(zip(res, want)):
        m.eq(got, exp, f"thread {i} doing {case['calls'][i]} with the shared {case['pool']} while others do "
             f"{[x for j, x in enumerate(case['calls']) if j != i]}, flags {case['g']}")
    m.eq([ops.see(o) for o in pool], before, "the shared objects afterwards")
    m.eq(bibleref.flags, F(case["g"]), "the global flags afterwards")


def free(jobs):
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    res = [None] * len(jobs)
    gate = threading.Barrier(len(jobs))

    def go(i):
        gate.wait()
        try:
            res[i] = jobs[i]()
        except BaseException as e:
            res[i] = ("raised", type(e).__name__, str(e))
    ts = [threading.Thread(target=go, args=(i,)) for i in range(len(jobs))]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    return res


def iters(case, m):
    r = random.Random(f"iters{case['seed']}")
    x = ops.make(case["x"])
    X = [list(g) for g in tup(case["x"]["d"]) if g]
    items = [q for g in X for q in g]
    rg = ops.make({"k": "r", "d": case["rg"]})
    alone = [verse(v) for v in ops.make({"k": "r", "d": case["rg"]})]
    kept = [x.groups[i] for i in range(len(X))]
    gs = x.groups

    def start():
        '''(name, iterator, what it has to yield, how to look at an item)'''
        k = r.choice(["list", "list", "reversed", "groups", "view", "range"])
        m.ev("over_" + k)
        if k == "list":
            return k, iter(x), items, rng
        if k == "reversed":
            return k, reversed(x), items[::-1], rng
        if k == "groups":
            return k, iter(gs if r.random() < 0.5 else x.groups), X, lambda g: [rng(q) for q in g]
        if k == "view":
            j = r.randrange(len(X))
            return k, iter(kept[j] if r.random() < 0.5 else x.groups[j]), X[j], rng
        return k, iter(rg), alone, verse
    w = f"over {X} and {case['rg']}, flags {case['g']}"
    m.mark()
    if case["how"] == "nested":
        m.ev("nested")
        got = []
        for a in itertools.islice(x, 12):
            for b in itertools.islice(x, 12):
                got.append((rng(a), rng(b)))
        m.eq(got, [(a, b) for a in items[:12] for b in items[:12]], "nested iteration " + w)
        m.eq([([rng(q) for q in a], [rng(q) for q in b]) for a in x.groups for b in itertools.islice(x.groups, 5)],
             [(a, b) for a in X for b in X[:5]], "nested iteration over the groups " + w)
        m.eq([([rng(q) for q in g], [rng(q) for q in x]) for g in itertools.islice(gs, 5)],
             [(g, items) for g in X[:5]], "iteration over the list within its groups " + w)
        m.eq([(verse(a), verse(b)) for a in itertools.islice(rg, 8) for b in itertools.islice(rg, 8)],
             [(a, b) for a in alone[:8] for b in alone[:8]], "nested iteration of the range " + w)
        m.eq([(rng(x[i]), rng(q)) for q in itertools.islice(reversed(x), 8) for i in range(min(8, len(x)))],
             [(items[i], q) for q in items[::-1][:8] for i in range(min(8, len(x)))],
             "indexing within reversed iteration " + w)
        return
    m.ev("interleaved")
    live = [start() + ([],) for _ in range(r.randint(2, 5))]
    for _ in range(200):
        if not live:
            break
        j = r.randrange(len(live))
        name, it, want, see, got = live[j]
        if r.random() < 0.04:
            m.ev("abandoned")
            live[j] = start() + ([],)
            continue
        for _ in range(r.choice([1, 1, 2, 5])):
            try:
                y = next(it)
            except StopIteration:
                m.eq(got, want, f"an iterator over the {name}, stepped between others, " + w)
                del live[j]
                break
            got.append(see(y))
            m.eq(got[-1], want[len(got) - 1] if len(got) <= len(want) else None,
                 f"item {len(got) - 1} of an iterator over the {name}, stepped between others, " + w)
        if r.random() < 0.2:        # something else is read in between
            reading(x, x, r.choice(READS), r.randrange(1 << 16))
    m.eq(groups(x), X, "the list afterwards")


def finish(m):
    return sorted(SEEN)


def merge(extras):
    return {"distinct_interleavings": len({x for e in extras for x in e})}
