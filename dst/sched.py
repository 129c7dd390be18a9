"""Deterministic interleaving of real threads: one runs at a time, the seeded scheduler decides where they switch.

Threads are preempted at line events inside /repo/graphix (sys.settrace); everything else is atomic.
"""

from __future__ import annotations

import queue
import sys
import threading
import warnings

from dst.core import REPO

PREFIX = REPO + "/graphix"


class _T:
    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.go = threading.Event()
        self.gap = 0
        self.result = None
        self.exc = None
        self.done = False
        self.thread = None


class Stuck(Exception):
    pass


class Interleaver:
    def __init__(self, ctx, max_switches=60, max_gap=400):
        self.ctx = ctx
        self.left = max_switches
        self.max_gap = max_gap
        self.q = queue.Queue()
        self.lines = 0
        self.switches = 0

    def _gap(self):
        if self.left <= 0:
            return 1 << 60
        self.left -= 1
        k = self.ctx.draw(4)
        return self.ctx.int(1, (3, 20, 100, self.max_gap)[k])

    def _body(self, t):
        t.go.wait()
        t.go.clear()

        def local(frame, event, arg):
            if event == "line":
                t.gap -= 1
                self.lines += 1
                if t.gap <= 0:
                    sys.settrace(None)
                    frame.f_trace = None
                    self.q.put((t.tid, False))
                    t.go.wait()
                    t.go.clear()
                    sys.settrace(tracer)
                    return local
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(PREFIX):
                return local
            return None

        try:
            sys.settrace(tracer)
            try:
                t.result = t.fn()
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa: BLE001
            t.exc = e
        t.done = True
        self.q.put((t.tid, True))

    def run(self, fns):
        """Returns the list of _T, each with result or exc."""
        ts = [_T(i, f) for i, f in enumerate(fns)]
        for t in ts:
            t.thread = threading.Thread(target=self._body, args=(t,), daemon=True)
            t.thread.start()
        runnable = {t.tid for t in ts}
        blocked = set()
        last = None
        while runnable or blocked:
            if not runnable:
                # every remaining thread waits inside the code under test
                try:
                    tid, fin = self.q.get(timeout=20)
                except queue.Empty:
                    raise Stuck(f"threads {sorted(blocked)} never finish") from None
                blocked.discard(tid)
                if not fin:
                    runnable.add(tid)
                continue
            order = sorted(runnable)
            # staying on the same thread is the simplest schedule
            if last in runnable:
                order.remove(last)
                order.insert(0, last)
            tid = order[self.ctx.draw(len(order))]
            t = ts[tid]
            t.gap = self._gap()
            if tid != last:
                self.switches += 1
                self.ctx.sched("switch", tid)
            last = tid
            t.go.set()
            waited = False
            while True:
                try:
                    got, fin = self.q.get(timeout=3 if not waited and len(runnable) > 1 else 60)
                except queue.Empty:
                    if len(runnable) > 1 and not waited:
                        # the thread waits for another one (a lock): let the others go on
                        runnable.discard(tid)
                        blocked.add(tid)
                        break
                    raise Stuck(f"thread {tid} makes no progress") from None
                if got == tid:
                    if fin:
                        runnable.discard(tid)
                    break
                # a formerly blocked thread came back
                blocked.discard(got)
                if not fin:
                    runnable.add(got)
        for t in ts:
            t.thread.join(timeout=5)
        return ts
