'''Runs callables in real threads, switching between them at chosen lines of the code under test.

A seeded generator decides at every executed line of /repo/src whether another thread goes on, so that a schedule can
be replayed.  Should the code under test make a thread wait for another one (a lock, say), the threads run freely from
then on: schedules only ever choose among behaviours that real threads have.'''
import random
import sys
import threading

from .core import REPO_SRC


FALLBACKS = 0       # how often threads had to be set free


class Scheduler:
    def __init__(self, seed, rate):
        self.r = random.Random(f"sched{seed}")
        self.rate = rate
        self.free = FALLBACKS >= 5
        self.trace = []             # (thread, file:line) of each switch
        self.lines = 0

    def run(self, fns):
        n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.results = [None] * n
        threads = [threading.Thread(target=self._main, args=(i, fn), daemon=True) for i, fn in enumerate(fns)]
        for t in threads:
            t.start()
        if self.free:
            for x in self.sem:
                x.release()
        else:
            self.sem[self.r.randrange(n)].release()
        for t in threads:
            t.join()
        return self.results

    def _main(self, i, fn):
        self._wait(i)
        sys.settrace(self._tracer(i))
        try:
            self.results[i] = fn()
        except BaseException as e:
            self.results[i] = ("raised", type(e).__name__, str(e))
        finally:
            sys.settrace(None)
            self.alive.discard(i)
            rest = sorted(set(self.alive))
            if rest:
                self.sem[self.r.choice(rest)].release()

    def _wait(self, i):
        global FALLBACKS
        while not self.sem[i].acquire(timeout=1.0):
            if self.free:
                return
            self.free = True
            FALLBACKS += 1
            return

    def _tracer(self, me):
        def line(frame, event, arg):
            if event == "line":
                self.lines += 1
                others = sorted(self.alive - {me})
                if others and not self.free and self.r.random() < self.rate:
                    other = self.r.choice(others)
                    self.trace.append((me, other, frame.f_code.co_name, frame.f_lineno))
                    self.sem[other].release()
                    self._wait(me)
            return line

        def call(frame, event, arg):
            if frame.f_code.co_filename.startswith(REPO_SRC):
                return line
            return None
        return call
