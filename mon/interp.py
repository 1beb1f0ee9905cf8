'''What a reference string means: an independent reading of syntax trees.

A tree is a list of references, each with the separator written after it:
    {"a": single, "b": single or None, "sep": "major" | "minor" | None}
    single = {"b": spelled book name or None, "c": number or None, "v": number or None}
A bare number is stored in "c" when no verse separator follows it.
'''
from .model import MB, V0

SPACES = ["", "", "", " ", " ", "  ", "\t", "\n", "\r\n", "\f"]
SEPS = {"range": "-", "major": ";", "minor": ",", "std": ":", "alt": "."}


def write(r, tree, seps=SEPS, spaces=True):
    '''The text of a tree, and the tree annotated with the span of each reference.'''
    out = []
    pos = 0

    def put(s):
        nonlocal pos
        out.append(s)
        pos += len(s)

    def gap():
        if spaces:
            put(r.choice(SPACES))

    def single(s):
        start = pos
        if s["b"] is not None:
            put(s["b"])
        if s["c"] is not None:
            if s["b"] is not None:
                put(r.choice([" ", " ", "", "  ", "\t"]) if spaces else " ")
            put(num(s["c"]))
        if s["v"] is not None:
            gap()
            put(seps[s.get("vs", "std")])
            gap()
            put(num(s["v"]))
        s["span"] = [start, pos]

    def num(n):
        return ("0" * r.randint(1, 2) if spaces and r.random() < 0.02 else "") + str(n)
    gap()
    for ref in tree:
        start = pos
        single(ref["a"])
        if ref["b"] is not None:
            gap()
            put(seps["range"])
            gap()
            single(ref["b"])
        ref["span"] = [start, pos]
        gap()
        if ref["sep"]:
            put(seps[ref["sep"]])
            gap()
    return "".join(out)


class Bad(Exception):
    def __init__(self, span, why):
        super().__init__(why)
        self.span, self.why = tuple(span), why


def meaning(tree, bible, E, find):
    '''The groups of ranges a tree stands for under flags E; raises Bad for one that stands for nothing.
    find(name) is the book of that name, or None.'''
    z = bool(E & V0)
    st = {"book": None, "chap": None, "verses": False}

    def single(s):
        b = st["book"]
        if s["b"] is not None:
            b = find(s["b"])
            if b is None:
                raise Bad((s["span"][0], s["span"][0] + len(s["b"])), "book")
            st["book"] = b
            st["verses"] = False
        if b is None:
            raise Bad(s["span"], "no book")
        if b not in bible.max:
            raise Bad(s["span"], "book without data")
        one = bible.nchaps(b) == 1
        c, v = s["c"], s["v"]
        if v is not None:
            st["chap"], st["verses"] = c, True
        elif c is not None:
            if one:
                c, v = 1, c
                st["chap"] = 1
                if s["b"] is not None:
                    st["verses"] = True
            elif s["b"] is not None:
                st["chap"] = c
            elif st["verses"]:
                c, v = st["chap"], c
        if c is None:
            n = bible.nchaps(b)
            return (b, 1, bible.min_verse(b, 1, z)), (b, n, bible.max[b][n - 1])
        if not 1 <= c <= bible.nchaps(b):
            raise Bad(s["span"], "no such chapter")
        if v is None:
            return (b, c, bible.min_verse(b, c, z)), (b, c, bible.max[b][c - 1])
        if not bible.exists((b, c, v), z):
            raise Bad(s["span"], "no such verse")
        return (b, c, v), (b, c, v)

    groups, cur = [], []
    for ref in tree:
        rng = single(ref["a"])
        if ref["b"] is not None:
            other = single(ref["b"])
            if bible.key(rng[0]) > bible.key(other[1]):
                rng, other = other, rng
            if rng[0][0] != other[1][0] and not E & MB:
                raise Bad(ref["span"], "multibook")
            rng = (rng[0], other[1])
        cur.append(rng)
        if ref["sep"] == "major":
            groups.append(cur)
            cur = []
            st["verses"] = False
    if cur:
        groups.append(cur)
    return groups


IGNORED = " \t\f\r\n"


def read(s, seps=SEPS):
    '''The tree of any string, or None if it is not a reference string at all.  Works by cutting the string at the
    separators: what is left between two of them must be a number, a name, or a name and a number.'''
    kinds = {}
    for k in ("range", "major", "minor", "std", "alt"):
        kinds.setdefault(seps[k], k)
    parts, start = [], 0            # (text, offset, separator kind after it)
    for i, ch in enumerate(s):
        if ch in kinds:
            parts.append((s[start:i], start, kinds[ch]))
            start = i + 1
    parts.append((s[start:], start, None))

    def part(text, off):
        '''[name, number, start, end] or None'''
        a, b = 0, len(text)
        while b > a and text[b - 1] in IGNORED:
            b -= 1
        while a < b and text[a] in IGNORED:
            a += 1
        if a == b:
            return None
        e = b
        while e > a and text[e - 1] in "0123456789":
            e -= 1
        digits = text[e:b]
        ne = e
        while ne > a and text[ne - 1] in IGNORED:
            ne -= 1
        name = text[a:ne]
        if not name:
            return [None, int(digits), off + a, off + b] if len(digits) < 4000 else [None, -1, off + a, off + b]
        if len(name) < 2 or not word(name[0]) or not all(word(ch) or ch.isspace() for ch in name[:-1]):
            return None
        if name[-1].isspace() or name[-1] in "0123456789":
            return None
        if not digits:
            return [name, None, off + a, off + b]
        return [name, int(digits) if len(digits) < 4000 else -1, off + a, off + b]

    tree = []
    i, n = 0, len(parts)

    def single():
        nonlocal i
        p = part(parts[i][0], parts[i][1])
        if p is None:
            return None
        out = {"b": p[0], "c": p[1], "v": None, "span": [p[2], p[3]]}
        if parts[i][2] in ("std", "alt"):
            i += 1
            q = part(parts[i][0], parts[i][1])
            if p[1] is None or q is None or q[0] is not None:
                return None
            out["v"], out["span"] = q[1], [p[2], q[3]]
        return out
    while True:
        a = single()
        if a is None:
            return None
        ref = {"a": a, "b": None, "sep": None, "span": list(a["span"])}
        if parts[i][2] == "range":
            i += 1
            b = single()
            if b is None:
                return None
            ref["b"] = b
            ref["span"][1] = b["span"][1]
        sep = parts[i][2]
        if sep in ("range", "std", "alt"):
            return None
        tree.append(ref)
        if sep is None:
            return tree
        ref["sep"] = sep
        i += 1
        if i == n - 1 and not parts[i][0].strip(IGNORED):
            return tree


def word(ch):
    return ch.isalnum() or ch == "_"


class Reader:
    '''Reads characters one by one, knowing whether what was read so far can still become a reference string: a machine
    with the states of the language (a set of states, as the end of a book name is only known later).'''

    def __init__(self, seps=SEPS):
        V, S, R = (seps["std"], seps["alt"]), (seps["major"], seps["minor"]), (seps["range"],)
        self.seps = set(V + S + R)
        ws = lambda ch: ch in IGNORED
        digit = lambda ch: ch in "0123456789"
        last = lambda ch: not (ch in "0123456789" or ch.isspace() or ch in self.seps)
        inner = lambda ch: word(ch) or ch.isspace()
        after = {}
        # single reference number k (0: not yet in a range, 1: after the range separator)
        for k in "01":
            a = after
            a["start" + k] = [(ws, "start" + k), (word, "name" + k), (digit, "num" + k)]
            a["name" + k] = [(inner, "name" + k), (last, "named" + k)]
            a["named" + k] = [(ws, "named" + k), (digit, "chap" + k)]
            a["chap" + k] = [(digit, "chap" + k), (ws, "chap_" + k), (V.__contains__, "sep" + k)]
            a["chap_" + k] = [(ws, "chap_" + k), (V.__contains__, "sep" + k)]
            a["num" + k], a["num_" + k] = list(a["chap" + k]), list(a["chap_" + k])
            a["num" + k][0] = (digit, "num" + k)
            a["num" + k][1] = (ws, "num_" + k)
            a["num_" + k][0] = (ws, "num_" + k)
            a["sep" + k] = [(ws, "sep" + k), (digit, "verse" + k)]
            a["verse" + k] = [(digit, "verse" + k), (ws, "verse_" + k)]
            a["verse_" + k] = [(ws, "verse_" + k)]
            for st in ("named", "chap", "chap_", "num", "num_", "verse", "verse_"):
                a[st + k].append((S.__contains__, "more"))
                if k == "0":
                    a[st + k].append((R.__contains__, "start1"))
        after["more"] = [(ws, "more"), (word, "name0"), (digit, "num0")]
        self.after = after
        self.final = {st + k for st in ("named", "chap", "chap_", "num", "num_", "verse", "verse_") for k in "01"} | {"more"}

    def wrong(self, s):
        '''The index of the first character that no reference string has there, len(s) if s ends too early, or None.'''
        now = {"start0"}
        for i, ch in enumerate(s):
            now = {t for st in now for f, t in self.after[st] if f(ch)}
            if not now:
                return i
        return None if now & self.final else len(s)
