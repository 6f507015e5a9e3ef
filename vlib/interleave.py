"""Threads that take turns as a schedule says: after so many lines of Recap's own
code, the next one goes on."""
from __future__ import annotations

import os
import sys
import threading

from .boot import REPO

HERE = os.path.realpath(REPO) + os.sep + "recap" + os.sep
STUCK_S = 0.25  # a thread that waits for a lock of another one gives up its turn


class _Turns:
    def __init__(self, n, schedule):
        self.cond = threading.Condition()
        self.alive = list(range(n))
        self.turn = 0
        self.schedule = schedule or [1]
        self.at = 0
        self.left = self.schedule[0]
        self.switches = 0
        self.started = 0
        self.n = n

    def _next(self):
        self.at += 1
        self.left = self.schedule[self.at % len(self.schedule)]
        if self.alive:
            later = [i for i in self.alive if i > self.turn]
            following = (later or self.alive)[0]
            self.switches += following != self.turn
            self.turn = following
        self.cond.notify_all()

    def _wait(self, me):
        while not self.cond.wait_for(lambda: self.turn == me, STUCK_S):
            self.turn = me  # the other one is blocked
            break

    def begin(self, me):
        with self.cond:
            self.started += 1
            self.cond.notify_all()
            self.cond.wait_for(lambda: self.started == self.n, 10)
            self._wait(me)

    def line(self, me):
        with self.cond:
            if self.turn != me:
                self._wait(me)
            self.left -= 1
            if self.left <= 0:
                self._next()
                self._wait(me)

    def end(self, me):
        with self.cond:
            self.alive.remove(me)
            if self.turn == me:
                self._next()


def run(jobs, schedule):
    """jobs: callables that return (work, done); work is interleaved. Returns
    ([(value, exception)], number of switches)."""
    turns = _Turns(len(jobs), schedule)
    results = [(None, RuntimeError("did not run"))] * len(jobs)
    ours: dict = {}

    def thread(me, job):
        def local(frame, event, arg):
            if event == "line":
                turns.line(me)
            return local

        def trace(frame, event, arg):
            f = frame.f_code.co_filename
            if f not in ours:
                ours[f] = os.path.realpath(f).startswith(HERE)
            return local if ours[f] else None

        try:
            work, done = job()
        except BaseException as e:
            results[me] = (None, e)
            turns.begin(me)
            turns.end(me)
            return
        turns.begin(me)
        try:
            sys.settrace(trace)
            try:
                results[me] = (work(), None)
            finally:
                sys.settrace(None)
        except Exception as e:
            results[me] = (None, e)
        finally:
            turns.end(me)
            done()

    threads = [threading.Thread(target=thread, args=(i, j), daemon=True) for i, j in enumerate(jobs)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    return results, turns.switches
