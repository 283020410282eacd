"""Deterministic thread interleaving: exactly one registered thread runs at a
time and control passes only at explicit switch points.

Points are announced by the thread functions themselves (Baton) or by a trace
function on every source line, byte code or call of the code under test
(traced).  A thread that cannot proceed because another one holds a lock is
recognised by a timeout and left to run freely, which is still a legal
execution.
"""
import os
import sys
import threading


class Stuck(Exception):
    pass


class Baton:
    """Runs thread functions, each called with a function announcing points.

    plan: list of (thread, number of points to run before giving up the baton,
    -1: to its end); after the plan each thread runs to its end in order.
    """
    def __init__(self, fns, plan, block=2.0):
        self.fns = fns
        self.plan = list(plan)
        self.n = len(fns)
        self.block = block
        self.cond = threading.Condition()
        self.go = [False] * self.n
        self.free = [False] * self.n
        self.budget = [-1] * self.n
        self.done = [False] * self.n
        self.points = [0] * self.n
        self.res = [None] * self.n
        self.exc = [None] * self.n
        self.freed = 0

    def point(self, i):
        self.points[i] += 1
        self.budget[i] -= 1
        if self.budget[i] == 0 and not self.free[i]:
            with self.cond:
                self.go[i] = False
                self.cond.notify_all()
                if not self.cond.wait_for(lambda: self.go[i] or self.free[i], timeout=120):
                    raise Stuck('never resumed')

    def _body(self, i):
        with self.cond:
            self.cond.wait_for(lambda: self.go[i])
        try:
            self.res[i] = self.fns[i](lambda: self.point(i))
        except BaseException as e:      # noqa
            self.exc[i] = e
        with self.cond:
            self.done[i] = True
            self.go[i] = False
            self.cond.notify_all()

    def run(self):
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)     # hand over at once
        try:
            return self._run()
        finally:
            sys.setswitchinterval(old)

    def _run(self):
        ths = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        plan = self.plan + [(i, -1) for i in range(self.n)]
        for i, k in plan:
            if k == 0:
                continue
            with self.cond:
                if self.done[i] or self.free[i]:
                    continue
                self.budget[i] = k
                self.go[i] = True
                self.cond.notify_all()
                seen = -1
                while not self.cond.wait_for(lambda: not self.go[i], timeout=self.block):
                    if self.points[i] == seen:      # no progress at all
                        self.free[i] = True
                        self.freed += 1
                        break
                    seen = self.points[i]
        for t in ths:
            t.join(60)
        if not all(self.done):
            raise Stuck('threads %s never finish' % [i for i in range(self.n) if not self.done[i]])
        for e in self.exc:
            if e is not None:
                raise e
        return self.res


def traced(fn, root, mode):
    """fn as a thread function whose points are the events of code below root:
    every line ('line'), byte code ('opcode') or function entry ('call')."""
    root = os.path.abspath(root) + os.sep

    def body(point):
        def local(frame, event, arg):
            if event == mode:
                point()
            return local

        def enter(frame, event, arg):
            if not frame.f_code.co_filename.startswith(root):
                return None
            if mode == 'call':
                point()
                return None
            if mode == 'opcode':
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return local
        sys.settrace(enter)
        try:
            return fn()
        finally:
            sys.settrace(None)
    return body


def count_points(fn, root, mode):
    """Number of points of a thread function running alone."""
    b = Baton([traced(fn, root, mode)], [])
    r = b.run()[0]
    return b.points[0], r


def plans(n0, n1, preempt, first=0, most=10**9):
    """All schedules of two threads with up to preempt forced switches that
    begin with the given thread (n0, n1: points of either alone); with more
    than most points the first switch goes to every k-th one."""
    a, b = first, 1 - first
    na, nb = (n0, n1) if first == 0 else (n1, n0)
    yield [(a, -1), (b, -1)]
    for i in range(1, na + 1, 1 + na // most):
        yield [(a, i), (b, -1), (a, -1)]
    if preempt >= 2:
        for i in range(1, na + 1):
            for j in range(1, nb + 1):
                yield [(a, i), (b, j), (a, -1), (b, -1)]
    if preempt >= 3:
        for i in range(1, na + 1):
            for j in range(1, nb + 1):
                for k in range(1, na - i + 1):
                    yield [(a, i), (b, j), (a, k), (b, -1), (a, -1)]
