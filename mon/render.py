'''What reference strings look like: an independent renderer for verses, ranges and lists of the default configuration.

A displayed reference point is a set of parts out of "b" (book), "c" (chapter) and "v" (verse).'''
from .model import V0

SEP = {"range": "-", "major": ";", "minor": ",", "std": ":", "alt": "."}


class Renderer:
    def __init__(self, bible, E, names, abbrev=False, alt_sep=False, nospace=False, force_start_verses=False, sep=SEP):
        self.bible, self.vw = bible, bible.view(E & V0)
        self.names, self.abbrev, self.ns, self.fs = names, abbrev, nospace, force_start_verses
        self.colon, self.sep = sep["alt" if alt_sep else "std"], sep

    def point(self, t, parts):
        '''A verse, of which only the given parts are displayed.'''
        b, c, v = t
        book = self.names[b][0 if self.abbrev else 1] if "b" in parts else ""
        if self.bible.nchaps(b) == 1:
            parts = parts.replace("c", "")
        nums = [str(n) for p, n in (("c", c), ("v", v)) if p in parts]
        s = " ".join(x for x in (book, self.colon.join(nums)) if x)
        return s.replace(" ", "") if self.ns else s

    def facts(self, r):
        vw = self.vw
        single = vw.whole_book(r) or vw.whole_chap(r) or r[0] == r[1]
        return (vw.spans(r, "start", "book"), vw.spans(r, "start", "chap"), vw.spans(r, "end", "book"),
                vw.spans(r, "end", "chap"), single)

    def range(self, r):
        sbook, schap, ebook, echap, single = self.facts(r)
        verses = not schap
        if self.fs and not echap:
            verses = True
        if verses:
            start = "bcv"
        else:
            start = "b" if sbook else "bc"
        s = self.point(r[0], start)
        if single:
            return s
        same = r[0][0] == r[1][0]
        if ebook and not same:
            end = "b"
        elif echap and not (verses and same):
            end = "c" if same else "bc"
        else:
            end = "v" if same and r[0][1] == r[1][1] else "cv" if same else "bcv"
        return s + self.sep["range"] + self.point(r[1], end)

    def list(self, groups, preserve):
        '''The text, and which items are preceded by a major separator.'''
        out, majors = [], []
        book = chap = None          # what a reader takes to be implied
        verses = False              # what a reader takes a bare number to be
        for g in groups:
            for k, r in enumerate(g):
                sbook, schap, ebook, echap, single = self.facts(r)
                one_chap = r[0][:2] == r[1][:2]
                cont = r[0][0] == book
                if preserve:
                    major = k == 0
                    if major:
                        verses = False
                else:
                    major = schap or not (cont and verses and chap == r[0][1] and one_chap)
                dual = not single
                # the start
                if sbook:
                    start = "b"
                elif not cont:
                    start = "bc" if schap else "bcv"
                elif schap:
                    start = "c"
                    if preserve and not major and (verses or not echap):
                        start, dual = "cv", True
                elif verses and chap == r[0][1] and one_chap:
                    start = "v"
                else:
                    start = "cv"
                if self.fs and "v" not in start and not echap:
                    start = "bcv" if "b" in start else "cv"
                text = self.point(r[0], start)
                book, verses = r[0][0], "v" in start
                chap = None if sbook else r[0][1]
                # the end
                if dual:
                    if r[1][0] != book:
                        verses = False
                    if ebook:
                        end, chap, verses = "b", None, False
                    elif echap and not verses:
                        end, chap, verses = ("c" if r[1][0] == book else "bc"), r[1][1], False
                    else:
                        end = "bcv" if r[1][0] != book else "v" if chap == r[1][1] else "cv"
                        chap, verses = r[1][1], True
                    book = r[1][0]
                    text += self.sep["range"] + self.point(r[1], end)
                if out:
                    out.append(self.sep["major" if major else "minor"] + ("" if self.ns else " "))
                out.append(text)
                majors.append(major)
        return "".join(out), majors


def natural(bible, E, items, names):
    '''The groups that the conventional notation gives these ranges, or None if some verse of theirs is not in effect.'''
    if not all(bible.exists(e, E & V0) for q in items for e in q):
        return None
    _, majors = Renderer(bible, E, names, force_start_verses=True).list([list(items)], False)
    out = []
    for q, mj in zip(items, majors):
        if mj or not out:
            out.append([])
        out[-1].append(q)
    return out
