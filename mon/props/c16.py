'''C16: what a string means does not depend on what else was or is being parsed.'''
import hashlib
import json
import random
import sys
import threading
from .. import model, gen, interp, names, sched, real
from ..model import MB, V0
from ..real import (bibleref, BibleRange, BibleRangeList, BibleRefParsingError, F, apply, set_flags, outcome, rng,
                    flat, groups, tup)
from . import c14, c20

RULE = ("A case is a history of parses in one process (some failing half-way), or a set of threads parsing and "
        "printing at once under a seeded line-level schedule or free-running with a minimal switch interval; every "
        "single outcome is compared with what the string means on its own. Non-trivial: a history with a failure "
        "followed by a string that implies something, or a schedule with at least three switches.")
WEAR = False         # the threads share the global flags
CASES = {"quick": 3000, "thorough": 40000}
REQUIRED = {"histories": 500, "scheduled": 800, "free_running": 150, "parses": 10000, "failed_parses": 800,
            "leading_bare_number": 300, "switches": 200, "flags_differ": 500, "reconfigured": 20, "reconfigured_parses": 500}
SHRINK = ("ops",)


def one(r, i, tier, cfg):
    while True:
        c = c14.make(r, i, tier)
        if c["cfg"] == cfg:
            break
    return c


def make(r, i, tier):
    kind = "hist" if i % 10 < 4 else "sched" if i % 10 < 9 else "free"
    if i % 50 == 11:
        bible = model.bible({"k": "default"})
        return {"t": "conf", "cfg": {"k": "default"}, "g": r.randrange(4), "seed": r.randrange(1 << 30),
                "ops": [[op(r, bible, i, tier)] for _ in range(r.randint(3, 6))],
                "steps": [[r.choice(["seps", "one_sep", "max", "v0", "edit_names", "restore"]), r.randrange(1 << 30)]
                          for _ in range(r.randint(1, 3))]}
    if i < 8:
        kind = "free" if i % 2 else "sched"       # the very first parse of a process happens under contention
    cfg = {"k": "tiny", "s": r.randrange(40)} if r.random() < 0.3 else {"k": "default"}
    bible = model.bible(cfg)
    n = r.randint(3, 8) if kind == "hist" else r.randint(2, 4)
    ops = []
    for _ in range(n):
        per = 1 if kind == "hist" else r.randint(1, 3)
        ops.append([op(r, bible, i, tier) for _ in range(per)])
        if len(ops) > 1 and r.random() < 0.3:       # the same string once more, under other flags
            o = dict(ops[-2][0])
            o["E"] = r.randrange(4)
            ops[-1][0] = o
    return {"t": kind, "cfg": cfg, "g": r.randrange(4), "ops": ops, "seed": r.randrange(1 << 30),
            "rate": r.choice([0.02, 0.1, 0.3, 0.6, 1.0])}


def op(r, bible, i, tier):
    '''One string to parse under given flags.'''
    E = r.randrange(4)
    x = r.random()
    cur = [None, False, None]
    tree = []
    n = r.choice([1, 1, 2, 3])
    for k in range(n):
        first = k == 0 and r.random() < 0.8         # some strings begin with a bare number: an error on their own
        ref = {"a": c14.single(r, bible, bool(E & V0), cur, first), "b": None}
        if r.random() < 0.3:
            ref["b"] = c14.single(r, bible, bool(E & V0), cur, False)
        ref["sep"] = r.choice(["major", "minor"]) if k < n - 1 else None
        if ref["sep"] == "major":
            cur[1] = False
        tree.append(ref)
    if x < 0.25 and n > 1:                          # fails half-way through
        tree[-1]["a"]["c"] = 999
    return {"E": E, "tree": tree, "ws": r.randrange(1 << 20), "pr": r.random() < 0.3}


def prepare(op, bible):
    tree = [dict(t, a=dict(t["a"]), b=t["b"] and dict(t["b"])) for t in op["tree"]]
    s = interp.write(random.Random(op["ws"]), tree)
    try:
        want = ("ok", [list(g) for g in interp.meaning(tree, bible, op["E"], names.default_lookup)])
    except interp.Bad as bad:
        want = ("err", bad.span)
    return s, op["E"], want, op["pr"]


def parse(s, E, pr):
    try:
        y = BibleRangeList(s, flags=F(E))
    except BibleRefParsingError as e:
        return ("err", (e.start_pos, e.end_pos))
    got = groups(y)
    if pr:
        back = y.str(flags=F(E))
        z = BibleRangeList(back, flags=F(E | MB))
        if groups(z) != got:
            return ("printed", back, groups(z))
    return ("ok", got)


SEEN = set()


def run(case, m):
    bible = apply(case["cfg"])
    set_flags(case["g"])
    work = [[prepare(o, bible) for o in ops] for ops in case["ops"]]
    for ops in work:
        for s, E, want, pr in ops:
            m.ev("parses")
            if want[0] == "err":
                m.ev("failed_parses")
            if s.strip()[:1].isdigit() and want[0] == "err" and want[1][0] <= len(s) - len(s.lstrip()):
                m.ev("leading_bare_number")
    if len({o[1] for ops in work for o in ops}) > 1:
        m.ev("flags_differ")
    if case["t"] == "conf":
        return reconfigured(case, m, work)
    if case["t"] == "hist":
        m.ev("histories")
        before = []
        for (s, E, want, pr), in work:
            m.eq(parse(s, E, pr), want, f"{s!r} (flags {E}) after {before}")
            if before and before[-1][1] == "err":
                m.mark()
            before = before[-3:] + [(s, want[0])]
        s, E, want, pr = work[0][0]
        m.eq(parse(s, E, pr), want, f"{s!r} (flags {E}) again, after {before}")
        return

    def job(ops):
        return lambda: [parse(s, E, pr) for s, E, want, pr in ops]
    if case["t"] == "sched":
        m.ev("scheduled")
        sc = sched.Scheduler(case["seed"], case["rate"])
        res = sc.run([job(ops) for ops in work])
        m.ev("switches", len(sc.trace))
        m.ev("lines_traced", sc.lines)
        inner = {"MAJOR_LIST_SEP", "NUM", "BOOK_NAME", "dual_ref", "num_only_ref", "chap_verse_ref", "book_num_ref",
                 "book_only_ref", "book_chap_verse_ref", "ref_list", "MINOR_LIST_SEP"}
        m.ev("switches_in_callbacks", sum(1 for t in sc.trace if t[2] in inner or "_ref" in t[2]))
        if sc.free:
            m.ev("fell_back_to_free_running")
        if len(sc.trace) >= 3:
            m.mark()
        SEEN.add(hashlib.blake2b(repr(sc.trace).encode(), digest_size=8).hexdigest())
    else:
        m.ev("free_running")
        m.mark()
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        res = [None] * len(work)
        gate = threading.Barrier(len(work))

        def go(i):
            gate.wait()
            try:
                res[i] = job(work[i])()
            except BaseException as e:
                res[i] = ("raised", type(e).__name__, str(e))
        ts = [threading.Thread(target=go, args=(i,)) for i in range(len(work))]
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
    for i, (ops, got) in enumerate(zip(work, res)):
        m.eq(got, [o[2] for o in ops], f"thread {i} parsing {[(o[0], o[1]) for o in ops]} while others parse "
             f"{[[(o[0], o[1]) for o in x] for j, x in enumerate(work) if j != i]}")
    m.eq(bibleref.flags, F(case["g"]), "the global flags afterwards")


def reconfigured(case, m, work):
    '''The same strings before, between and after changes of the configuration.'''
    m.ev("reconfigured")
    m.mark()
    cfg, log = c20.Config(), []
    again = [(s, E, pr) for (s, E, want, pr), in work]
    try:
        c20.restore()
        for kind, seed in [(None, 0)] + case["steps"] + [("restore", 0)]:
            if kind:
                c20.step(cfg, kind, seed, m)
                log.append(kind)
            bible, sh = cfg.bible(), cfg.short()
            for s, E, pr in again:
                tree = interp.read(s, sh)
                try:
                    want = ("ok", interp.meaning(tree, bible, E, cfg.find)) if tree else ("err",)
                except interp.Bad as bad:
                    want = ("err", bad.span)
                got = parse(s, E, pr)
                m.ev("reconfigured_parses")
                m.eq(got if want != ("err",) else got[:1], want, f"{s!r} (flags {E}) after {log}")
    finally:
        c20.restore()
        real._current = None


def finish(m):
    return sorted(SEEN)


def merge(extras):
    return {"distinct_interleavings": len({x for e in extras for x in e})}
