"""A seeded scheduler for real threads: one thread runs at a time, and control moves only at
switch points, as the run's schedule says.

A schedule is a list of [gap, target]: after `gap` further switch points the running thread
is preempted in favour of runnable thread number `target` (modulo the others).  Without an entry the running
thread continues until it ends."""

from __future__ import annotations

import threading
import time

from .util import Skip


class Killed(BaseException):
    """Unwinds a thread that the simulation stops."""


class Sched:
    def __init__(self, gaps, limit=60.0):
        self.gaps = [list(g) for g in gaps]
        self.left = self.gaps[0][0] if self.gaps else None
        self.limit = limit
        self.steps = 0
        self.switches = 0
        self.trace = []
        self.free = False
        self.current = None
        self.workers = []
        self.ids = {}
        self.all_done = threading.Event()

    class _T:
        def __init__(self, k, fn):
            self.k, self.fn = k, fn
            self.go = threading.Event()
            self.done = False
            self.error = None

    def add(self, fn):
        self.workers.append(self._T(len(self.workers), fn))

    def me(self):
        return self.ids.get(threading.get_ident())

    def run(self, first=0):
        def body(t):
            self.ids[threading.get_ident()] = t.k
            t.go.wait()
            try:
                t.fn()
            except BaseException as e:  # noqa: BLE001
                t.error = e
            t.done = True
            if self.free:
                if all(w.done for w in self.workers):
                    self.all_done.set()
                return
            rest = [w for w in self.workers if not w.done]
            if not rest:
                self.all_done.set()
                return
            self._pass_to(rest[(t.k + 1) % len(rest)], ended=True)

        ths = []
        for t in self.workers:
            th = threading.Thread(target=body, args=(t,), daemon=True)
            th.start()
            ths.append(th)
        while len(self.ids) < len(self.workers):
            time.sleep(0.001)
        self.current = self.workers[first % len(self.workers)].k
        self.workers[self.current].go.set()
        last, t0 = -1, time.time()
        while not self.all_done.wait(1.0):
            if self.steps != last:
                last, t0 = self.steps, time.time()
            elif time.time() - t0 > self.limit:
                # The running thread waits for something a paused one holds.
                self.free = True
                for w in self.workers:
                    w.go.set()
                self.all_done.wait(self.limit)
                raise Skip("the simulated threads blocked each other outside the simulation")
        for th in ths:
            th.join(10)

    def _pass_to(self, w, ended=False):
        self.current = w.k
        self.trace.append((self.steps, w.k))
        w.go.set()

    def point(self, label=None):
        """A place where the running thread may be preempted."""
        k = self.me()
        if k is None or self.free or k != self.current:
            return
        self.steps += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        _, target = self.gaps.pop(0)
        self.left = self.gaps[0][0] if self.gaps else None
        rest = [w for w in self.workers if not w.done and w.k != k]
        if not rest:
            return
        self.switches += 1
        mine = self.workers[k]
        mine.go.clear()
        self._pass_to(rest[target % len(rest)])
        mine.go.wait()


def gen_gaps(r, mean, n):
    return [[1 + min(int(r.expovariate(1.0 / mean)), 50 * mean), r.randrange(8)] for _ in range(n)]


def linearizable(history, initial, step, legal_final=None, limit=200000):
    """Is there an order of the operations that respects real time and the sequential spec?

    history: [(invoke, return or None, op)]; an operation without return may take effect at any later time or never.
    step(state, op) -> new state, or None if op cannot happen in this state."""
    n = len(history)
    seen = set()
    stack = [(frozenset(), initial)]
    visited = 0
    must = frozenset(i for i in range(n) if history[i][1] is not None)
    while stack:
        done, state = stack.pop()
        if (done, state) in seen:
            continue
        seen.add((done, state))
        visited += 1
        if visited > limit:
            raise Skip("linearizability search too large")
        if must <= done and (legal_final is None or legal_final(state)):
            return True
        todo = [i for i in range(n) if i not in done]
        bound = min((history[i][1] for i in todo if history[i][1] is not None), default=None)
        for i in todo:
            if bound is not None and history[i][0] > bound:
                continue
            ns = step(state, history[i][2])
            if ns is not None:
                stack.append((done | {i}, ns[0]))
    return False
