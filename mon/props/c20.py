'''C20: every part of the configuration takes effect at once and everywhere, and can be put back.'''
import random
from .. import model, gen, interp, names, ops, real, fresh
from ..model import MB, V0, CANON
from ..real import (bibleref, BOOK, ALL, BibleBook, BibleVerse, BibleRange, BibleRangeList, BibleRefParsingError, V, R,
                    L, F, set_flags, outcome, verse, rng, flat, groups, tup)
from . import c13, c14

RULE = ("A case is a sequence of changes to the separators, book order, names, versification and verse 0s; after each "
        "one, generated references are written, parsed, compared and counted and checked against a model of the "
        "configuration in force; at the end the defaults are put back and checked again. Non-trivial: at least two "
        "different parts were changed.")
CASES = {"quick": 1200, "thorough": 10000}
REQUIRED = {"set_seps": 250, "set_order": 200, "set_names": 200, "set_max": 200, "set_v0": 200, "restored": 1000,
            "written": 3000, "parsed": 3000, "old_separator_rejected": 300, "old_name_rejected": 500,
            "invalid_rejected": 200, "existing_objects": 1000, "left_out_of_order": 300, "parsed_again": 2000, "rejected_again": 1000,
            "existing_lists": 1000, "existing_as_new": 4000, "as_without_history": 40000, "read_back": 1000, "books_come_back": 20, "edit_names": 200, "old_name_kept": 500,
            "left_out_of_names": 15, "left_out_of_versification": 15}
SHRINK = ("steps",)
CASE_SECONDS = 60
CHARS = list("-;,:./|~!@#%&*+=?()[]{}<>^$'`") + ["–", "—", "·", "、", "；", "：", "，", "؛"]
KEYS = ["range_sep", "major_list_sep", "minor_list_sep", "verse_sep_std", "verse_sep_alt"]
SHORT = {"range_sep": "range", "major_list_sep": "major", "minor_list_sep": "minor", "verse_sep_std": "std",
         "verse_sep_alt": "alt"}
ALPHABETS = ["abcdefghijlmnoprstuvwxyz", "абвгдежзиклмнопртуфхцчш", "αβγδεζηθικλμνξοπρτυφχψω", "创世记出埃及利未民数申命约书亚士师路得撒母耳列王"]


def make(r, i, tier):
    steps = []
    for _ in range(r.choice([1, 2, 3, 3, 4, 5])):
        steps.append([r.choice(["seps", "order", "order", "names", "edit_names", "max", "v0", "seps", "one_sep", "restore"]),
                      r.randrange(1 << 30)])
    return {"steps": steps, "seed": r.randrange(1 << 30)}


_bibles = {}            # the default and the latest few


class Config:
    '''The configuration in force, as the model sees it.'''
    def __init__(self):
        self.seps = dict(CANON["seps"])
        self.order = list(CANON["order"])
        self.names = {b: (e[0], e[1], e[2], list(e[3])) for b, e in CANON["names"].items()}
        self.max = {b: list(v) for b, v in CANON["max"].items()}
        self.v0 = {b: set(v) for b, v in CANON["v0"].items()}

    def bible(self):
        v0 = {b: {c for c in v if c <= len(self.max[b])} for b, v in self.v0.items() if b in self.order}
        key = repr((self.order, [self.max[b] for b in self.order], [sorted(v0.get(b, ())) for b in self.order]))
        if key not in _bibles:
            if len(_bibles) > 5:
                del _bibles[list(_bibles)[1]]
            _bibles[key] = model.Bible(self.order, self.max, v0)
        return _bibles[key]

    def find(self, s):
        if self.__dict__.get("_for") is not self.names:
            self._for, self._memo = self.names, {}
        if s not in self._memo:
            got = names.lookup(self.names, s)
            self._memo[s] = got[0] if got else None
        return self._memo[s]

    def short(self):
        return {SHORT[k]: v for k, v in self.seps.items()}


def new_names(r, order):
    alpha = r.choice(ALPHABETS)
    out, stems = {}, set()
    prev = None
    for b in order:
        if prev and prev[0] < 3 and r.random() < 0.3:           # the next of a numbered series
            n, title, least, extra = prev[0] + 1, prev[1], prev[2], prev[3]
        else:
            while True:
                stem = "".join(r.choice(alpha) for _ in range(3))
                if stem not in stems:
                    break
            stems.add(stem)
            title = stem + "".join(r.choice(alpha) for _ in range(r.randint(0, 6)))
            if r.random() < 0.2 and len(title) > 5:
                title = title[:4] + " " + title[4:]
            title = title.capitalize()
            least = r.randint(3, 4 if len(title) > 3 else 3)
            extra = []
            if r.random() < 0.4:
                extra = [stem + alpha[0] * 2 + "".join(r.choice(alpha) for _ in range(r.randint(1, 3)))]
            n = 1 if r.random() < 0.2 else 0
        if n:
            prev = (n, title, least, extra)
            body = title.replace(" ", "")
            out[b] = (f"{n}{title[:least]}".replace(" ", ""), f"{n} {title}", least, [f"{n} {x}" for x in extra])
        else:
            prev = None
            out[b] = (title[:least].strip(), title, least, extra)
    return out


def edit_names(r, was):
    '''The same names but for one aspect of some books.'''
    out = dict(was)
    books = r.sample(sorted(out), min(len(out), r.choice([1, 3, 12, 66])))
    how = r.choice(["extra", "extra", "no_extra", "abbrev", "least", "swap"])
    fresh = 0
    for b in books:
        ab, title, least, extra = out[b]
        pre = title[:2] if title[:2] in ("1 ", "2 ", "3 ") else ""
        if how == "extra":                      # same title, other abbreviations
            fresh += 1
            extra = (extra[:1] if r.random() < 0.5 else []) + [f"{pre}qx{chr(97 + fresh // 26)}{chr(97 + fresh % 26)}"]
        elif how == "no_extra":
            extra = []
        elif how == "abbrev" and title.replace(" ", "").isalnum():
            ab = title                          # the abbreviation written becomes the whole title
        elif how == "least":                    # the title itself only
            least = len(title) - len(pre)
        if not names.matches((ab, title, least, extra), ab):
            ab = title
        out[b] = (ab, title, least, list(extra))
    if how == "swap":                           # two books exchange their names
        for a, b in zip(books[::2], books[1::2]):
            out[a], out[b] = out[b], out[a]
    return out


def step(cfg, kind, seed, m):
    r = random.Random(f"cfg{seed}")
    bd = bibleref.bible_data()
    if kind == "restore":
        restore()
        cfg.__init__()
        read_back(cfg, m, "everything back")
        m.ev("restored_midway")
        return
    if kind in ("seps", "one_sep"):
        m.ev("set_seps")
        if kind == "seps":
            if r.random() < 0.3:
                vals = r.sample(list(CANON["seps"].values()), 5)        # the same characters, in other roles
            else:
                vals = r.sample(CHARS, 5)
            new = dict(zip(KEYS, vals))
            keys = r.sample(KEYS, 5)
        else:
            k = r.choice(KEYS)
            new = dict(cfg.seps)
            new[k] = r.choice([x for x in CHARS if x not in cfg.seps.values()])
            keys = [k]
        for k in keys:
            setattr(bd, k, new[k])
        cfg.seps = new
        for k in KEYS:
            m.eq(getattr(bd, k), cfg.seps[k], "bible_data()." + k)
    elif kind == "order":
        m.ev("set_order")
        order = list(cfg.order)
        if r.random() < 0.4:        # books that were left out come back
            order = [b for b in CANON["order"] if b in cfg.max and b in cfg.names]
            if len(order) > len(cfg.order):
                m.ev("books_come_back")
        x = r.random()
        if x < 0.3:
            order.reverse()
        elif x < 0.8:
            r.shuffle(order)
        if r.random() < 0.6 and len(order) > 10:
            order = order[:r.randint(5, len(order) - 1)]
        bd.book_order = [BOOK[b] for b in order]
        cfg.order = order
        m.eq([b.name for b in bd.book_order], order, "bible_data().book_order")
    elif kind == "names":
        m.ev("set_names")
        cfg.names = new_names(r, cfg.order if r.random() < 0.5 else CANON["order"])
        bd.name_data = {BOOK[b]: (e[0], e[1], e[2], list(e[3])) for b, e in cfg.names.items()}
    elif kind == "edit_names":
        m.ev("edit_names")
        cfg.names = edit_names(r, cfg.names)
        bd.name_data = {BOOK[b]: (e[0], e[1], e[2], list(e[3])) for b, e in cfg.names.items()}
    elif kind == "max":
        m.ev("set_max")
        hi = r.choice([2, 5, 30])
        cfg.max = {b: [r.randint(1, hi) for _ in range(r.choice([1, 2, 3, r.randint(1, 20)]))] for b in CANON["order"]
                   if b in cfg.order or r.random() < 0.5}
        bd.max_verses = {BOOK[b]: list(v) for b, v in cfg.max.items()}
    else:
        m.ev("set_v0")
        p = r.choice([0, 0.1, 0.5, 1])
        cfg.v0 = {b: {c for c in range(1, len(cfg.max[b]) + 1) if r.random() < p} for b in cfg.max
                  if r.random() < 0.7}
        bd.verse_0s = {BOOK[b]: set(v) for b, v in cfg.v0.items()}
    read_back(cfg, m, kind)


def read_back(cfg, m, kind):
    bd = bibleref.bible_data()
    m.ev("read_back")
    m.eq([getattr(bd, k) for k in KEYS], [cfg.seps[k] for k in KEYS], f"the separators after setting {kind}")
    m.eq([b.name for b in bd.book_order], cfg.order, f"book_order after setting {kind}")
    m.eq({b.name: (e[0], e[1], e[2], list(e[3])) for b, e in bd.name_data.items()}, cfg.names,
         f"name_data after setting {kind}")
    m.eq({b.name: list(v) for b, v in bd.max_verses.items()}, cfg.max, f"max_verses after setting {kind}")
    m.eq({b.name: set(v) for b, v in bd.verse_0s.items()}, cfg.v0, f"verse_0s after setting {kind}")


def restore():
    bd = bibleref.bible_data()
    for k in KEYS:
        if getattr(bd, k) != CANON["seps"][k]:
            setattr(bd, k, CANON["seps"][k])
    bd.book_order = [BOOK[b] for b in CANON["order"]]
    bd.name_data = {BOOK[b]: (e[0], e[1], e[2], list(e[3])) for b, e in CANON["names"].items()}
    bd.max_verses = {BOOK[b]: list(v) for b, v in CANON["max"].items()}
    bd.verse_0s = {BOOK[b]: set(v) for b, v in CANON["v0"].items()}


def again(cfg, r, m, log, strings, objects):
    '''Strings parsed and objects made under former configurations, under this one.'''
    bible = cfg.bible()
    sh = cfg.short()
    for s in r.sample(strings, min(6, len(strings))):
        g = r.randrange(4)
        tree = interp.read(s, sh)
        if any(x and x["b"] and cfg.find(x["b"]) and cfg.find(x["b"]) not in bible.bpos
               for t in tree or [] for x in (t["a"], t["b"])):
            continue                # a book that is not in the order, but has names
        try:
            want = ("ok", interp.meaning(tree, bible, g, cfg.find)) if tree else ("exc", "BibleRefParsingError")
        except interp.Bad:
            want = ("exc", "BibleRefParsingError")
        m.ev("parsed_again" if want[0] == "ok" else "rejected_again")
        m.eq(outcome(lambda: BibleRangeList(s, flags=F(g)), groups), want,
             f"after {log}: parsing {s!r} again, flags {g}")
    alive = []
    for X, lst, h, d in objects:
        g = r.randrange(4)
        m.eq((groups(lst), [hash(q) for q in lst], [hash(q.start) for q in lst]), (X, h[0], h[1]),
             f"after {log}: the content and hashes of an existing list")
        m.check(all(q in d and q.start in d and q.end in d for q in lst),
                "after %s: the ranges of %s are no longer found in a dictionary", log, X)
        if not all(t[0] in bible.bpos and t[0] in cfg.names and bible.exists(t, g & V0) for q in flat(lst) for t in q):
            continue
        if any(bible.key(q[0]) > bible.key(q[1]) for q in flat(lst)):
            continue                # the book order was turned round within it
        m.ev("existing_lists")
        set_flags(g)
        vw = bible.view(g & V0)
        alive += flat(lst)
        m.eq([q.verse_count() for q in lst], [vw.pos[q[1]] - vw.pos[q[0]] + 1 for q in flat(lst)],
             f"after {log}: verse counts of the existing {X}, flags {g}")
        s = lst.str()
        tree = interp.read(s, sh)
        m.check(tree is not None, "after %s: the existing %s is written %s", log, X, repr(s))
        try:
            mean = interp.meaning(tree, bible, g | MB, cfg.find)
        except interp.Bad as bad:
            m.check(False, "after %s: the existing %s is written %s, which means nothing: %s", log, X, repr(s), bad.why)
        m.eq(mean, X, f"after {log}: meaning of {s!r}, written for an existing list")
        m.eq(outcome(lambda: BibleRangeList(s, flags=F(g | MB)), groups), ("ok", X), f"after {log}: parsing {s!r}")
        for _ in range(4):      # an existing object answers as one made now
            q = r.choice(list(lst)) if len(lst) else None
            old = r.choice([lst] if q is None else [lst, q, q, r.choice([q.start, q.end])])
            kind = "l" if old is lst else "r" if old is q else "v"
            o = {"k": kind, "d": X if old is lst else rng(old) if old is q else verse(old)}
            _, n, gen_args, _, changes = r.choice([p for p in ops.OPS if p[0] == kind])
            if changes:
                old = BibleRangeList(lst)       # of the same ranges
            a, kwargs = gen_args(r, vw, ops.near(vw, o))
            now = ops.make(o)
            m.ev("existing_as_new")
            m.eq((outcome(lambda: getattr(old, n)(*[ops.make(y) for y in a], **kwargs), ops.see), ops.see(old)),
                 (outcome(lambda: getattr(now, n)(*[ops.make(y) for y in a], **kwargs), ops.see), ops.see(now)),
                 f"after {log}: {o}.{n}({a}, {kwargs}), flags {g}, of an existing object and of a new one")
    for _ in range(min(4, len(alive))):
        a, b = r.choice(alive), r.choice(alive)
        ka, kb = [tuple(bible.key(t) for t in q) for q in (a, b)]
        m.eq((R(a) < R(b), R(a) <= R(b), R(a).start < R(b).start), (ka < kb, ka <= kb, ka[0] < kb[0]),
             f"after {log}: order of {a} and {b}")


def keep_list(X, lst):
    return (X, lst, ([hash(q) for q in lst], [hash(q.start) for q in lst]),
            {k: 1 for q in lst for k in (q, q.start, q.end)})


def mentions(x):
    '''The verses and books in an encoded operand or argument.'''
    if isinstance(x, dict):
        yield from ([(x["d"],)] if x["k"] == "b" else mentions(x["d"]))
    elif isinstance(x, (list, tuple)):
        if len(x) == 3 and isinstance(x[0], str):
            yield tuple(x)
        else:
            for y in x:
                yield from mentions(y)


def possible(q, cfg, bible):
    '''Whether the verses and books of a question exist, and in the right order, under this configuration.'''
    if q["t"] in ("name", "parse"):
        return True
    for t in mentions([q["o"], q.get("a", [])] if "o" in q else [{"k": "b", "d": q["b"]}]):
        if t[0] not in bible.bpos or t[0] not in cfg.names or len(t) == 3 and not bible.exists(tup(t), V0):
            return False
    for o in [q.get("o")] + q.get("a", []):
        if isinstance(o, dict) and o["k"] in "rl":
            for x in [o["d"]] if o["k"] == "r" else [x for g in o["d"] for x in g]:
                if bible.key(tup(x[0])) > bible.key(tup(x[1])):
                    return False
    return True


def ask_anything(cfg, r, n):
    '''Questions about references and names, to be put under several configurations.'''
    bible = cfg.bible()
    out = []
    for _ in range(n):
        g = r.randrange(4)
        vw = bible.view(g & V0)
        q = {"g": g}
        x = r.random()
        if x < 0.65:
            k, name, args, _, changes = ops.OPS[r.randrange(len(ops.OPS))]
            o = ops.receiver(r, vw, k)
            a, kwargs = args(r, vw, ops.near(vw, o))
            q.update(t="change" if changes else "op", o=o, n=name, a=a, kw=kwargs)
        elif x < 0.8:
            q.update(t="text", o=ops.receiver(r, vw, r.choice("vrl")))
        elif x < 0.85:
            i = gen.pick_pos(r, vw)
            q.update(t="iter", o={"k": "r", "d": [vw.seq[i], vw.seq[min(i + r.randrange(60), len(vw.seq) - 1)]]})
        elif x < 0.9:
            b = r.choice(sorted(cfg.names))
            e = cfg.names[b]
            q.update(t="name", s=r.choice([e[0], e[1], e[1].upper(), *e[3]]))
        elif x < 0.985:
            q.update(t="book", b=r.choice(bible.order))
        else:
            q.update(t="parse", s=L(tup(c13.make_list(r, vw, r.random() < 0.3))).str())
        out.append(q)
    return out


def without_history(cfg, m, log, questions, compare=True):
    '''Every answer is that of a process that knows this configuration only.'''
    bible = cfg.bible()
    qs = [q for q in questions if possible(q, cfg, bible)]
    got = [fresh.probe(q) for q in qs]
    if not compare:
        return
    want = fresh.ask({k: getattr(cfg, k) for k in ("seps", "order", "names", "max", "v0")}, qs)
    if want is None:
        return
    for q, a, b in zip(qs, got, want):
        m.eq(a, b, f"after {log}: {q}, compared with a process with no history")
        m.ev("as_without_history")


def probe(cfg, r, m, old, log, n, strings, objects):
    bible = cfg.bible()
    sh = cfg.short()
    what = f"after {log}: "
    for _ in range(n):
        g = r.randrange(4)
        set_flags(g)
        vw = bible.view(g & V0)
        # books
        a, b = r.choice(cfg.order), r.choice(cfg.order)
        m.eq((BOOK[a] < BOOK[b], BOOK[a] >= BOOK[b]), (bible.bpos[a] < bible.bpos[b], bible.bpos[a] >= bible.bpos[b]),
             what + f"order of {a} and {b}")
        p = bible.bpos[a]
        nx, pv = BOOK[a].next(), BOOK[a].prev()
        m.eq((nx and nx.name, pv and pv.name), (cfg.order[p + 1] if p + 1 < len(cfg.order) else None,
                                                cfg.order[p - 1] if p else None), what + f"neighbours of {a}")
        lo, hi = vw.book[a]
        m.eq((BOOK[a].chap_count(), BOOK[a].verse_count(), rng(BOOK[a].range()), BOOK[a].abbrev, BOOK[a].title),
             (bible.nchaps(a), hi - lo + 1, vw.rng(lo, hi), cfg.names[a][0], cfg.names[a][1]), what + f"data of {a}")
        c = r.randint(1, bible.nchaps(a))
        for v in (0, 1, bible.max[a][c - 1], bible.max[a][c - 1] + 1):
            out = outcome(lambda: BibleVerse(BOOK[a], c, v), verse)
            m.eq(out, ("ok", (a, c, v)) if bible.exists((a, c, v), g & V0) else ("exc", "InvalidReferenceError"),
                 what + f"verse {a} {c}:{v}, flags {g}")
        gone = [x for x in CANON["order"] if x not in bible.bpos]
        if gone:
            x = r.choice(gone)
            m.ev("left_out_of_order")
            m.eq((BOOK[x].order, BOOK[x].next(), BOOK[x].prev()), (None, None, None), what + f"order of {x}, left out")
        gone = [x for x in CANON["order"] if x not in cfg.names]
        if gone:
            x = r.choice(gone)
            m.ev("left_out_of_names")
            m.eq((BOOK[x].abbrev, BOOK[x].title), (None, None), what + f"names of {x}, left out")
            for nm in CANON["names"][x][:2]:
                if cfg.find(nm) is None:
                    m.eq(BibleBook.from_str(nm), None, what + f"the default name {nm!r} of {x}")
        gone = [x for x in CANON["order"] if x not in cfg.max]
        if gone:
            x = r.choice(gone)
            m.ev("left_out_of_versification")
            m.eq((BOOK[x].chap_count(), BOOK[x].max_chap_num()), (0, 0), what + f"chapters of {x}, left out")
            m.eq(outcome(lambda: BibleVerse(BOOK[x], 1, 1)), ("exc", "InvalidReferenceError"), what + f"{x} 1:1, left out")
        # verses
        i, j = sorted((gen.pick_pos(r, vw), gen.pick_pos(r, vw)))
        if j - i < 3000:
            with_mb = {"flags": F(g | MB)}
            m.eq(outcome(lambda: V(vw.seq[i]).add(j - i, **with_mb), verse), ("ok", vw.seq[j]),
                 what + f"{vw.seq[i]} + {j - i}")
            m.eq(V(vw.seq[i]) < V(vw.seq[j]), i < j, what + "order of verses")
        # a list, written
        X = c13.make_list(r, vw, r.random() < 0.3)
        X = [[tup(q) for q in grp] for grp in X]
        lst = L(X)
        objects.append(keep_list(X, lst))
        e2 = g | MB
        k = {n: r.random() < 0.5 for n in ("abbrev", "alt_sep", "nospace", "force_start_verses")}
        s = lst.str(**k)
        m.ev("written")
        w = what + f"{s!r}, written for {X} with {k}, flags {g}"
        used = {sh["range"], sh["major"], sh["minor"], sh["alt" if k["alt_sep"] else "std"]}
        m.check(all(ch.isalnum() or ch == " " or ch in used for ch in s), "%s uses other separators than %s", w, used)
        tree = interp.read(s, sh)
        m.check(tree is not None, "%s is not a reference string with separators %s", w, sh)
        try:
            mean = interp.meaning(tree, bible, e2, cfg.find)
        except interp.Bad as bad:
            m.check(False, "%s means nothing: %s at %s", w, bad.why, bad.span)
        m.eq(mean, X, "meaning of " + w)
        m.eq(outcome(lambda: BibleRangeList(s, flags=F(e2)), groups), ("ok", X), w)
        strings.append(s)
        # a string, parsed
        tree, cur = [], [None, False, None]
        for q in range(r.randint(1, 3)):
            t = {"a": c14.single(r, bible, bool(g & V0), cur, q == 0, cfg.names), "b": None}
            if r.random() < 0.3:
                t["b"] = c14.single(r, bible, bool(g & V0), cur, False, cfg.names)
            t["sep"] = r.choice(["major", "minor"])
            if t["sep"] == "major":
                cur[1] = False
            tree.append(t)
        tree[-1]["sep"] = None
        s = interp.write(r, tree, sh)
        m.ev("parsed")
        try:
            want = ("ok", interp.meaning(tree, bible, g, cfg.find))
        except interp.Bad as bad:
            want = ("exc", "BibleRefParsingError")
            m.ev("invalid_rejected")
        m.eq(outcome(lambda: BibleRangeList(s), groups), want, what + f"parsing {s!r}, flags {g}")
        strings.append(s)
        # separators and names no longer in force
        for kind in ("range", "std", "major", "minor", "alt"):
            if old and old.short()[kind] not in sh.values():
                nm = cfg.names[a][1]
                s = {"range": f"{nm} 1{old.short()[kind]}1", "std": f"{nm} 1{old.short()[kind]}1"}.get(
                    kind, f"{nm} 1{old.short()[kind]} 1")
                m.ev("old_separator_rejected")
                m.eq(outcome(lambda: BibleRangeList(s), groups), ("exc", "BibleRefParsingError"),
                     what + f"parsing {s!r} with a former separator")
        if old:
            x = r.choice(sorted(old.names))
            for nm in [old.names[x][1], old.names[x][0]] + list(old.names[x][3]):
                now = cfg.find(nm)
                m.ev("old_name_rejected" if now is None else "old_name_kept")
                m.eq(BibleBook.from_str(nm), now and BOOK[now], what + f"the former name {nm!r}")
        x = r.choice(sorted(cfg.names))
        for nm in [cfg.names[x][1], cfg.names[x][0]] + list(cfg.names[x][3]):
            m.eq(BibleBook.from_str(nm), BOOK[cfg.find(nm)], what + f"the name {nm!r}")


def run(case, m):
    r = random.Random(f"probe{case['seed']}")
    fresh.start()
    restore()
    real._current = None
    cfg = Config()
    log = []
    questions = ask_anything(cfg, r, 16)
    without_history(cfg, m, log, questions, False)
    strings, objects = [], []
    probe(cfg, r, m, None, [], 1, strings, objects)
    keep = V(("Mark", 1, 1))
    if len({k for k, _ in case["steps"]} - {"restore"}) > 1:
        m.mark()
    try:
        for kind, seed in case["steps"]:
            before = Config()
            before.__dict__.update({k: v for k, v in cfg.__dict__.items()})
            step(cfg, kind, seed, m)
            log.append(kind)
            without_history(cfg, m, log, questions, r.random() < 0.5)
            again(cfg, r, m, log, strings, objects)
            probe(cfg, r, m, before, log, 2, strings, objects)
            new = ask_anything(cfg, r, 8)
            without_history(cfg, m, log, new, False)
            questions += new
            if "Mark" in cfg.order and "Mark" in cfg.max and "Mark" in cfg.names:         # an object made before the change
                m.ev("existing_objects")
                e = cfg.names["Mark"]
                txt = f"{e[1]} 1" if len(cfg.max["Mark"]) == 1 else f"{e[1]} 1{cfg.seps['verse_sep_std']}1"
                m.eq(keep.str(), txt, f"after {log}: an existing verse")
        restore()
        m.ev("restored")
        without_history(Config(), m, log + ["restore"], questions)
        again(Config(), r, m, log + ["restore"], strings, objects)
        probe(Config(), r, m, cfg, log + ["restore"], 2, strings, objects)
    finally:
        restore()
        real._current = None
