'''Which strings name which book: an independent, character-level reading of the name data (no regular expressions).'''
from .model import CANON

ROMAN = {"1": "I", "2": "II", "3": "III"}
WS = [" ", " ", " ", "  ", "\t", "\n", " \t "]


def _fits(pattern, s):
    '''s spells pattern, where a space in the pattern stands for any amount of whitespace, and case is ignored.'''
    i = 0
    for ch in pattern:
        if ch == " ":
            while i < len(s) and s[i].isspace():
                i += 1
        elif i < len(s) and s[i].lower() == ch.lower():
            i += 1
        else:
            return False
    return i == len(s)


def matches(entry, s):
    '''entry: (abbrev, title, minimum characters, extra abbreviations)'''
    s = s.strip()
    _, title, least, extra = entry
    if any(_fits(x, s) for x in extra):
        return True
    if title[:2] in ("1 ", "2 ", "3 "):
        d, title = title[0], title[2:]
        if s[:1] == d:
            rest = s[1:].lstrip()
        elif s[:len(ROMAN[d])].upper() == ROMAN[d] and s[len(ROMAN[d]):len(ROMAN[d]) + 1].isspace():
            rest = s[len(ROMAN[d]):].lstrip()
        else:
            return False
    else:
        rest = s
    return any(_fits(title[:n], rest) for n in range(least, len(title) + 1))


def lookup(names, s):
    '''The books whose names s spells.'''
    return [b for b, e in names.items() if matches(e, s)]


_memo = {}


def default_lookup(s):
    if s not in _memo:
        if len(_memo) > 50000:
            _memo.clear()
        got = lookup(CANON["names"], s)
        _memo[s] = got[0] if got else None
    return _memo[s]


def recase(r, s):
    x = r.random()
    if x < 0.5:
        return s
    if x < 0.65:
        return s.lower()
    if x < 0.8:
        return s.upper()
    return "".join(ch.upper() if r.random() < 0.5 else ch.lower() for ch in s)


def spell(r, entry, plain=False):
    '''A random acceptable spelling of a book's name.'''
    abbrev, title, least, extra = entry
    x = r.random()
    if x < 0.25:
        s = title
    elif x < 0.4:
        s = abbrev
    elif x < 0.55 and extra:
        s = r.choice(extra)
    else:
        pre = title[:2] if title[:2] in ("1 ", "2 ", "3 ") else ""
        body = title[len(pre):]
        s = (pre + body[:r.randint(least, len(body))]).strip()
    if plain:
        return s
    if title[:2] in ("1 ", "2 ", "3 ") and s[:1] == title[:1]:
        rest = s[1:].lstrip()
        if s != abbrev and s not in extra and r.random() < 0.3:
            s = ROMAN[title[0]] + r.choice(WS) + rest
        elif " " in s or s == abbrev:
            s = s[0] + r.choice(WS + [""]) + rest
            if not matches(entry, s):
                s = s[0] + " " + rest
    if " " in s and title[:2] not in ("1 ", "2 ", "3 "):
        s = "".join(r.choice(WS + [""]) if ch == " " else ch for ch in s)
    return recase(r, s)
