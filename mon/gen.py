'''Workload generators.  They produce plain JSON-able data and never touch the code under test.'''
from .model import MB, V0


def pick_pos(r, view, near=()):
    '''A position in the verse sequence, biased to boundaries and to the neighbourhood of earlier positions.'''
    n = view.n
    x = r.random()
    if near and x < 0.45:
        p = r.choice(near) + r.choice([-2, -1, -1, 0, 1, 1, 2])
        return min(max(p, 0), n - 1)
    if x < 0.55:
        return r.choice([0, n - 1, min(1, n - 1), max(0, n - 2)])
    p = r.randrange(n)
    if x < 0.60 and view.z:
        b, c, _ = view.seq[p]
        zs = [(b2, c2) for b2 in ([b] if view.bible.v0[b] else [x for x in view.bible.order if view.bible.v0[x]])
              for c2 in view.bible.v0[b2]]
        if zs:
            b2, c2 = r.choice(sorted(zs))
            return min(n - 1, max(0, view.pos[(b2, c2, 0)] + r.choice([-1, 0, 0, 1])))
    if x < 0.68:        # single-chapter books
        bs = [b for b in view.bible.order if view.bible.nchaps(b) == 1]
        if bs:
            lo, hi = view.book[r.choice(bs)]
            return r.choice([lo, hi, r.randint(lo, hi)])
    if x < 0.78:
        return r.choice(view.chap_of(p))
    if x < 0.86:
        return r.choice(view.book_of(p))
    return p


def pick_span(r, view, multibook, near=()):
    '''(i, j): a range of positions; crosses books only if `multibook`.'''
    i = pick_pos(r, view, near)
    x = r.random()
    if x < 0.13:
        j = i
    elif x < 0.25:
        i, j = view.chap_of(i)
    elif x < 0.33:
        i, j = view.book_of(i)
    elif x < 0.43:
        j = view.chap_of(i)[1]
    elif x < 0.50:
        j = view.book_of(i)[1]
    elif x < 0.57:
        j = i
        i = view.chap_of(i)[0]
    elif x < 0.62:
        j = i
        i = view.book_of(i)[0]
    elif x < 0.68:       # whole chapters of one book
        lo, hi = view.book_of(i)
        k = r.randint(lo, hi)
        i, j = min(view.chap_of(i)[0], view.chap_of(k)[0]), max(view.chap_of(i)[1], view.chap_of(k)[1])
    elif x < 0.78:
        j = i + r.choice([1, 1, 2, 3, 5, 8])
    elif x < 0.90:
        lo, hi = view.book_of(i)
        j = r.randint(lo, hi)
    else:
        j = pick_pos(r, view, near)
        if r.random() < 0.3:
            j = r.choice([view.chap_of(j)[1], view.book_of(j)[1]])
        if r.random() < 0.3:
            i = r.choice([view.chap_of(i)[0], view.book_of(i)[0]])
    j = min(max(j, 0), view.n - 1)
    i, j = min(i, j), max(i, j)
    if not multibook and view.seq[i][0] != view.seq[j][0]:
        if r.random() < 0.5:
            j = view.book_of(i)[1]
        else:
            i = view.book_of(j)[0]
    return i, j


def pick_range(r, view, multibook, near=()):
    return list(view.rng(*pick_span(r, view, multibook, near)))


def pick_ranges(r, view, multibook, n, near=()):
    near = list(near)
    out = []
    mode = r.random()
    for _ in range(n):
        if out and r.random() < 0.08:
            out.append(r.choice(out))
            continue
        i, j = pick_span(r, view, multibook and r.random() < 0.5, near)
        if mode < 0.3 and j - i > 12:       # lists of short ranges
            j = i + r.randint(0, 6)
            if not multibook and view.seq[i][0] != view.seq[j][0]:
                j = view.book_of(i)[1]
        near += [i, j]
        out.append(list(view.rng(i, j)))
    if r.random() < 0.3:
        out.sort(key=lambda t: (view.pos[tuple(t[0])], view.pos[tuple(t[1])]))
    return out


def pick_groups(r, items):
    '''Randomly partition items into consecutive non-empty groups.'''
    out = []
    p = r.choice([0.0, 0.2, 0.5, 0.8, 1.0])
    for it in items:
        if not out or r.random() < p:
            out.append([])
        out[-1].append(it)
    return out


def nitems(r, hi=8):
    x = r.random()
    if x < 0.004:               # now and then a long list
        return r.randint(30, 90) if x < 0.003 else r.randint(210, 300)
    return r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, r.randint(0, hi)])


def pick_flags(r):
    '''(global flags, flags argument or None)'''
    g = r.randrange(4)
    a = r.choice([None, None, 0, 1, 2, 3])
    return g, a


def eff(case):
    return case["a"] if case.get("a") is not None else case["g"]


def long_list(n, step=2, shuffled=False, book="Gen"):
    '''n single verses and short ranges of the default Bible from the start of a book on, two groups of them.'''
    import random
    from . import model
    vw = model.bible({"k": "default"}).view(False)
    p = vw.book[book][0]
    out = []
    for i in range(n):
        q = p + (i % 3 == 1 and step > 2)
        if vw.seq[p][0] != vw.seq[q][0]:
            q = p
        out.append(list(vw.rng(p, q)))
        p += step
    if shuffled:
        random.Random(n).shuffle(out)
    return [g for g in (out[:n // 3], out[n // 3:]) if g]
