'''Reference model of the Bible, written independently of bibleref.

A Bible is an ordered list of books, each with a list of last verse numbers per chapter and a set of chapters that
may start at verse 0.  Everything the monitors expect is computed from the two explicit verse sequences (with and
without verse 0s), never from the code under test.  Verses are triples (book name, chapter, verse), where the book
name is the name of the enum member.
'''
import json
import os
import random

HERE = os.path.dirname(os.path.abspath(__file__))
CANON = json.load(open(os.path.join(HERE, "canon.json")))

MB, V0 = 1, 2           # bits of a flags value: MULTIBOOK, VERSE_0


class Bible:
    def __init__(self, order, maxv, v0):
        self.order = list(order)
        self.max = {b: list(maxv[b]) for b in order}
        self.v0 = {b: set(v0.get(b, ())) for b in order}
        self.bpos = {b: i for i, b in enumerate(self.order)}
        self._seq = {}

    def _build(self, z):
        seq, pos, chap, book = [], {}, {}, {}
        for b in self.order:
            b0 = len(seq)
            for c, last in enumerate(self.max[b], 1):
                c0 = len(seq)
                for v in range(0 if (z and c in self.v0[b]) else 1, last + 1):
                    pos[(b, c, v)] = len(seq)
                    seq.append((b, c, v))
                chap[(b, c)] = (c0, len(seq) - 1)
            book[b] = (b0, len(seq) - 1)
        return seq, pos, chap, book

    def view(self, z):
        z = bool(z)
        if z not in self._seq:
            self._seq[z] = View(self, z, *self._build(z))
        return self._seq[z]

    def nchaps(self, b):
        return len(self.max[b])

    def min_verse(self, b, c, z):
        return 0 if (z and c in self.v0[b]) else 1

    def exists(self, t, z):
        b, c, v = t
        return b in self.max and 1 <= c <= len(self.max[b]) and self.min_verse(b, c, z) <= v <= self.max[b][c - 1]

    def key(self, t):
        return (self.bpos[t[0]], t[1], t[2])

    def rkey(self, r):
        return (self.key(r[0]), self.key(r[1]))


class View:
    '''The verse sequence of a Bible, either with (z) or without verse 0s.'''
    def __init__(self, bible, z, seq, pos, chap, book):
        self.bible, self.z, self.seq, self.pos, self.chap, self.book = bible, z, seq, pos, chap, book
        self.n = len(seq)

    def span(self, r):
        return self.pos[r[0]], self.pos[r[1]]

    def rng(self, i, j):
        return (self.seq[i], self.seq[j])

    def mask(self, r):
        i, j = self.span(r)
        return ((1 << (j - i + 1)) - 1) << i

    def lmask(self, rs):
        m = 0
        for r in rs:
            m |= self.mask(r)
        return m

    def chap_of(self, i):
        b, c, _ = self.seq[i]
        return self.chap[(b, c)]

    def book_of(self, i):
        return self.book[self.seq[i][0]]

    def whole_chap(self, r):
        i, j = self.span(r)
        return self.chap_of(i) == (i, j)

    def whole_book(self, r):
        i, j = self.span(r)
        return self.book_of(i) == (i, j)

    def spans(self, r, which, unit):
        i, j = self.span(r)
        lo, hi = (self.chap_of if unit == "chap" else self.book_of)(i if which == "start" else j)
        return i <= lo and hi <= j

    def chapters(self, r):
        '''(number of chapters touched, number wholly inside)'''
        return self._units(r, self.chap_of)

    def books(self, r):
        return self._units(r, self.book_of)

    def _units(self, r, unit):
        i, j = self.span(r)
        p, touched, whole = i, 0, 0
        while p <= j:
            lo, hi = unit(p)
            touched += 1
            whole += (i <= lo and hi <= j)
            p = hi + 1
        return touched, whole

    def split(self, r, by_book, by_chap, num):
        i, j = self.span(r)
        out, p, start = [], i, i
        seq = self.seq
        for p in range(i, j + 1):
            cut = p == j
            if not cut:
                a, b = seq[p], seq[p + 1]
                if by_book and a[0] != b[0]:
                    cut = True
                elif by_chap and a[:2] != b[:2]:
                    cut = True
                elif num is not None and p - start + 1 == num:
                    cut = True
            if cut:
                out.append((seq[start], seq[p]))
                start = p + 1
        return out

    def runs(self, m, mb, bridges=None):
        '''Maximal ranges covering the verses of mask m; a range crosses books only with mb or where bridged.'''
        out = []
        i = 0
        n = self.n
        while m >> i:
            low = (m >> i) & -(m >> i)
            i += low.bit_length() - 1
            j = i
            while j + 1 < n and (m >> (j + 1)) & 1 and \
                    (mb or self.seq[j][0] == self.seq[j + 1][0] or (bridges and j in bridges)):
                j += 1
            out.append((self.seq[i], self.seq[j]))
            i = j + 1
        return out


# ---------------------------------------------------------------- configurations

def default_bible():
    return Bible(CANON["order"], CANON["max"], CANON["v0"])


HEBREW = ["Gen", "Exod", "Lev", "Num", "Deut", "Josh", "Judg", "ISam", "IISam", "IKgs", "IIKgs", "Isa", "Jer", "Ezek",
          "Hos", "Joel", "Amos", "Obad", "Jonah", "Mic", "Nah", "Hab", "Zeph", "Hag", "Zech", "Mal", "Psa", "Prov",
          "Job", "Song", "Ruth", "Lam", "Eccl", "Esth", "Dan", "Ezra", "Neh", "IChr", "IIChr"]


_cache = {}


def bible(cfg):
    '''cfg is a JSON-able description of a configuration; see `random_cfg`.'''
    key = json.dumps(cfg, sort_keys=True)
    if key not in _cache:
        if cfg["k"] == "tiny":
            for old in [x for x in _cache if '"tiny"' in x]:
                del _cache[old]
        _cache[key] = _make(cfg)
    return _cache[key]


def _make(cfg):
    k = cfg["k"]
    if k == "default":
        return default_bible()
    if k == "order":
        order = list(CANON["order"])
        s = cfg["s"]
        if s == "rev":
            order.reverse()
        elif s == "hebrew":
            order = HEBREW + [b for b in order if b not in HEBREW]
        elif s == "nt":
            order = order[39:]
        else:
            random.Random(f"order{s}").shuffle(order)
        return Bible(order, CANON["max"], CANON["v0"])
    if k == "tiny":
        r = random.Random(f"tiny{cfg['s']}")
        nb = r.randint(2, 6)
        order = r.sample(CANON["order"], nb)
        maxv, v0 = {}, {}
        for b in order:
            nc = r.choice([1, 1, 2, 2, 3, 4])
            maxv[b] = [r.choice([1, 2, 2, 3, 4, 5]) for _ in range(nc)]
            v0[b] = {c for c in range(1, nc + 1) if r.random() < 0.4}
        return Bible(order, maxv, v0)
    if k == "v0":       # the default Bible, with verse 0s in many more places
        r = random.Random(f"v0{cfg['s']}")
        v0 = {b: {c for c in range(1, len(CANON["max"][b]) + 1) if r.random() < 0.3} for b in CANON["order"]}
        return Bible(CANON["order"], CANON["max"], v0)
    raise ValueError(k)


def random_cfg(r, tiny=0.5):
    x = r.random()
    if x < tiny:
        return {"k": "tiny", "s": r.randrange(1 << 20)}
    x = r.random()
    if x < 0.6:
        return {"k": "default"}
    if x < 0.8:
        return {"k": "order", "s": r.choice(["rev", "hebrew", "nt", 1, 2, 3])}
    return {"k": "v0", "s": r.randrange(3)}
