'''C19: a flags argument means exactly what the global flags would mean, and touches nothing else.'''
import inspect
from .. import model, gen, interp, ops
from ..model import MB, V0
from ..real import (bibleref, BOOK, BibleBook, BibleVerse, BibleRange, BibleRangeList, F, apply, set_flags, outcome, tup)
from . import c14, c13

RULE = ("A case is one public operation that takes flags, called several times on equal (or the same) objects under "
        "changing global flags, with and without the argument: flags=F under global flags G must come to the same as no "
        "argument under global flags F, and the global flags are watched. Non-trivial: F differs from G.")
CASES = {"quick": 60000, "thorough": 900000}
KINDS = {"b": BibleBook, "v": BibleVerse, "r": BibleRange, "l": BibleRangeList}
FLAGGED = [o for o in ops.OPS if o[3]]
CTORS = ["verse_str", "verse_args", "range_str", "range_args", "range_ends", "list_str"]
REQUIRED = {f"{k}.{n}": 150 for k, n, *_ in FLAGGED}
REQUIRED.update({"ctor_" + c: 300 for c in CTORS})
REQUIRED.update({"operators": 3000, "same_objects": 10000, "restored_objects": 2000, "several_meanings": 10000, "flags_matter": 1500, "raised": 1000, "explicit_none": 5000, "agrees": 15000})


def make(r, i, tier):
    cfg = model.random_cfg(r, 0.55)
    bible = model.bible(cfg)
    vw = bible.view(r.random() < 0.5)
    c = {"cfg": cfg, "g": r.randrange(4), "f": r.randrange(4), "same": r.random() < 0.5, "twin": r.random() < 0.4}
    c["more"] = [r.choice([(c["g"], None), (c["f"], None), (c["f"], c["g"]), (c["g"], c["f"]),
                           (r.randrange(4), r.choice([None, 0, 1, 2, 3]))]) for _ in range(r.choice([1, 2, 3, 4]))]
    if r.random() < 0.85:
        k, n, args, _, _ = FLAGGED[r.randrange(len(FLAGGED))]
        o = ops.receiver(r, vw, k)
        a, kwargs = args(r, vw, ops.near(vw, o))
        c.update(t="op", k=k, n=n, o=o, args=a, kw=kwargs)
        return c
    t = r.choice(CTORS)
    c["t"] = t
    if t == "verse_args":
        c["d"] = vw.seq[gen.pick_pos(r, vw)]
        if r.random() < 0.2:
            c["d"] = [c["d"][0], c["d"][1], 0]
    elif t == "range_args":
        a, b = gen.pick_range(r, vw, r.random() < 0.5)
        x = r.random()
        d = [a[0], a[1], a[2], b[0], b[1], b[2]]
        c["d"] = d if x < 0.4 else [a[0]] if x < 0.5 else [a[0], a[1]] if x < 0.6 else \
            [a[0], None, None, b[0]] if x < 0.8 else [a[0], a[1], None, None, b[1], b[2]]
    elif t == "range_ends":
        c["d"] = gen.pick_range(r, vw, r.random() < 0.6)
    else:
        cc = c14.make(r, i, tier)
        c["cfg"] = cc["cfg"]
        if t == "verse_str":
            cc["tree"] = cc["tree"][:1]
            cc["tree"][0].update(b=None, sep=None)
        elif t == "range_str":
            cc["tree"] = cc["tree"][:1]
            cc["tree"][0].update(sep=None)
        import random
        c["d"] = interp.write(random.Random(cc["ws"]), cc["tree"], spaces=cc["sp"])
    return c


def subjects(case):
    return [ops.make(case["o"])] + [ops.make(a) for a in case["args"]]


def call(case, m, flags, objects=None):
    '''Runs the operation once, and observes its result and its operands.'''
    k = {} if flags is None else {"flags": F(flags)}
    t = case["t"]
    if t == "op":
        x, *args = objects or subjects(case)
        name, twin = case["n"], ops.TWINS.get((case["k"], case["n"]))
        if flags is None and twin and not case["kw"] and case["twin"]:
            m.ev("operators")
            name = twin
        res = outcome(lambda: getattr(x, name)(*args, **case["kw"], **k), ops.see)
        if name.startswith("__i") and res == ("ok", ops.see(x)):
            res = ("ok", None)
        return res, ops.see(x), [ops.see(a) for a in args]
    d = case["d"]
    if t == "verse_args":
        fn = lambda: BibleVerse(BOOK[d[0]], d[1], d[2], **k)
    elif t == "range_args":
        fn = lambda: BibleRange(*[BOOK[y] if isinstance(y, str) else y for y in d], **k)
    elif t == "range_ends":
        s, e = ops.V(tup(d[0])), ops.V(tup(d[1]))
        fn = lambda: BibleRange(start=s, end=e, **k)
    else:
        cls = {"verse_str": BibleVerse, "range_str": BibleRange, "list_str": BibleRangeList}[t]
        fn = lambda: cls(d, **k)
    return outcome(fn, ops.see), None, None


def restore(x, content):
    x.clear()
    for group in content[2]:
        x.append_group([ops.R(y) for y in group])


CHANGES = {(k, n) for k, n, _, _, changes in ops.OPS if changes}


def run(case, m):
    apply(case["cfg"])
    what = {k: v for k, v in case.items() if k not in ("cfg", "more", "same")}
    f, g = case["f"], case["g"]
    objects = None
    if case["same"] and case["t"] == "op":
        objects = subjects(case)
        contents = [ops.see(x) for x in objects]
        m.ev("same_objects")
    results, history = {}, []
    # the first two: without the argument under global flags F, then with flags=F under global flags G
    for under, given in [(f, None), (g, f)] + case["more"]:
        set_flags(under)
        if objects and (case["k"], case["n"]) in CHANGES and history:
            restore(objects[0], contents[0])
            m.ev("restored_objects")
            if ops.see(objects[0]) != contents[0]:      # (that lists can be refilled is for others to judge)
                objects = subjects(case)
        got = call(case, m, given, objects)
        history.append((under, given))
        m.eq(bibleref.flags, F(under), f"the global flags after {what}, called under and with {history}")
        meant = under if given is None else given
        m.eq(got, results.setdefault(meant, got),
             f"{what}: with flags={given} under global {under}, compared with other calls that mean {meant} "
             f"(all calls, global flags and argument: {history})")
    m.ev("agrees")
    if results[f][0][0] == "exc":
        m.ev("raised")
    m.ev(f"{case['k']}.{case['n']}" if case["t"] == "op" else "ctor_" + case["t"])
    if f != g:
        m.mark()
        if f == 0:
            m.ev("explicit_none")
    if len(results) > 1:
        m.ev("several_meanings")
        if any(x != results[f] for x in results.values()):
            m.ev("flags_matter")


def finish(m):
    known = {(k, n) for k, n, *_ in ops.OPS}
    return [f"{c.__name__}.{n}" for k, c in KINDS.items() for n, f in inspect.getmembers(c, callable)
            if not n.startswith("_") and (k, n) not in known and _takes_flags(f)]


def _takes_flags(f):
    try:
        return "flags" in inspect.signature(f).parameters
    except (TypeError, ValueError):
        return False


def merge(extras):
    return {"flag_methods_not_driven": extras[0] if extras else []}
