'''A process in which nothing has happened yet, that answers questions about a configuration.

The first use in a process forks a server; for every question, the server forks a child, which configures the package
once, directly, answers and ends.  What the children see has no history, whatever the process that asks has been through.
'''
import multiprocessing
import os
import pickle
import signal
import sys

from . import ops, real
from .model import CANON
from .real import bibleref, BOOK, BibleBook, BibleVerse, BibleRangeList, F, set_flags, outcome

_server = None
_NAMES = {b: (e[0], e[1], e[2], list(e[3])) for b, e in CANON["names"].items()}
_MAX = {b: list(v) for b, v in CANON["max"].items()}
_V0 = {b: set(v) for b, v in CANON["v0"].items()}


def start():
    global _server
    if _server is not None and _server[0] == os.getpid():
        return
    here, there = multiprocessing.Pipe()
    pid = os.fork()
    if pid == 0:
        try:
            here.close()
            _serve(there)
        finally:
            os._exit(0)
    there.close()
    _server = (os.getpid(), here)


def _quiet():
    for sig, timer in ((signal.SIGPROF, signal.ITIMER_PROF), (signal.SIGALRM, signal.ITIMER_REAL)):
        signal.setitimer(timer, 0)
        signal.signal(sig, signal.SIG_DFL)
    if sys.monitoring.get_tool(3):
        sys.monitoring.set_events(3, 0)
    real.wear(None)


def _serve(conn):
    _quiet()
    while True:
        try:
            question = conn.recv_bytes()
        except EOFError:
            return
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_REAL, 200)
                conn.send_bytes(pickle.dumps(_answer(*pickle.loads(question))))
                os._exit(0)
            finally:
                os._exit(1)
        if os.waitpid(pid, 0)[1] != 0:
            conn.send_bytes(pickle.dumps(None))         # it was ended before it answered


def _answer(config, questions):
    configure(config)
    return [probe(q) for q in questions]


def configure(c):
    bd = bibleref.bible_data()      # (what is as by default is left alone)
    if c["order"] != CANON["order"]:
        bd.book_order = [BOOK[b] for b in c["order"]]
    if c["names"] != _NAMES:
        bd.name_data = {BOOK[b]: (e[0], e[1], e[2], list(e[3])) for b, e in c["names"].items()}
    if c["max"] != _MAX:
        bd.max_verses = {BOOK[b]: list(v) for b, v in c["max"].items()}
    if c["v0"] != _V0:
        bd.verse_0s = {BOOK[b]: set(v) for b, v in c["v0"].items()}
    for k, v in c["seps"].items():
        if v != CANON["seps"][k]:
            setattr(bd, k, v)


def ask(config, questions):
    '''What a process with no history answers under this configuration; None if it came to no end.'''
    start()
    _server[1].send_bytes(pickle.dumps((config, questions)))
    return pickle.loads(_server[1].recv_bytes())


def probe(q):
    '''The outcome of one question: an operation on objects made for it, or a query.'''
    set_flags(q["g"])
    t = q["t"]
    if t == "op":
        return outcome(lambda: getattr(ops.make(q["o"]), q["n"])(*[ops.make(a) for a in q["a"]], **q["kw"]), ops.see)
    if t == "change":
        x = ops.make(q["o"])
        return outcome(lambda: getattr(x, q["n"])(*[ops.make(a) for a in q["a"]], **q["kw"]), ops.see), ops.see(x)
    if t == "text":
        x = ops.make(q["o"])
        return outcome(lambda: (repr(x), str(x)))
    if t == "iter":
        return outcome(lambda: [ops.see(v) for v in ops.make(q["o"])])
    if t == "name":
        return outcome(lambda: BibleBook.from_str(q["s"]), ops.see)
    if t == "parse":
        return outcome(lambda: BibleRangeList(q["s"]), ops.see)
    b = BOOK[q["b"]]
    return outcome(lambda: (b.abbrev, b.title, b.order, b.chap_count(), b.verse_count(), b.max_chap_num(),
                            [(b.min_verse_num(c), b.max_verse_num(c)) for c in range(1, b.chap_count() + 1)],
                            ops.see(b.next()), ops.see(b.prev())))
