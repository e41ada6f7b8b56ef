"""Deterministic scheduler for the threads of the code under test.

Every task runs in its own OS thread, but only the holder of the baton runs; all switches happen at
scheduling points and are choices of the context (symbolic: every choice within the preemption bound is explored).
"""
import threading as _th
from . import rt
from .rt import PathEnd, SxSignal


class Task(object):
    def __init__(self, tid, name, fn):
        self.tid = tid
        self.name = name
        self.fn = fn
        self.sem = _th.Semaphore(0)
        self.done = False
        self.pred = None          # blocked until pred() is true
        self.timed = False
        self.os_thread = None
        self.exc = None


class Sched(object):
    def __init__(self, cx, preemptions=2):
        self.cx = cx
        self.budget = preemptions
        self.tasks = []
        self.cur = Task(0, "main", None)
        self.tasks.append(self.cur)
        self.signal = None
        self.aborting = False
        self.deadlock = None
        self.crashes = []
        cx.threads = self
        cx.cleanups.append(self.abort)

    # ------------------------------------------------------------
    def spawn(self, fn, name):
        t = Task(len(self.tasks), name, fn)
        self.tasks.append(t)
        t.os_thread = _th.Thread(target=self._main, args=(t,))
        t.os_thread.daemon = True
        t.os_thread.start()
        return t

    def _main(self, t):
        t.sem.acquire()
        try:
            if not self.aborting:
                t.fn()
        except SxSignal as e:
            if self.signal is None and not self.aborting:
                self.signal = e
        except BaseException as e:
            t.exc = e
            self.crashes.append((t.name, e))
        t.done = True
        if self.aborting:
            return
        if self.signal is not None:
            self._wake(self.tasks[0])
            return
        try:
            nxt = self._pick(False)
        except SxSignal as e:
            self.signal = e
            nxt = self.tasks[0]
        if nxt is None:
            nxt = self.tasks[0]
        self._wake(nxt)

    def _wake(self, t):
        self.cur = t
        t.sem.release()

    def ready(self, t):
        if t.done:
            return False
        if t.pred is None:
            return True
        return bool(t.pred()) or t.timed

    def _pick(self, include_current):
        """The next task to run (a choice), or None if none can."""
        c = self.cur
        opts = []
        if include_current and self.ready(c):
            opts.append(c)
        start = c.tid
        n = len(self.tasks)
        for k in range(1, n + 1):
            t = self.tasks[(start + k) % n]
            if t is not c and self.ready(t):
                opts.append(t)
        if not opts:
            live = [t.name for t in self.tasks if not t.done]
            if live:
                self.deadlock = live
            return None
        if len(opts) == 1:
            return opts[0]
        return opts[self.cx.choice("sched", len(opts))]

    def _switch_to(self, t):
        me = self.cur
        if t is me:
            return
        self._wake(t)
        me.sem.acquire()
        if self.aborting:
            raise PathEnd()
        if self.signal is not None:
            if me.tid == 0:
                s = self.signal
                raise s
            self._wake(self.tasks[0])
            me.sem.acquire()
            raise PathEnd()

    def yield_point(self, line=None):
        """The running task may be preempted here."""
        if self.aborting or self.cx.dead:
            raise PathEnd()
        if self.budget <= 0:
            return
        me = self.cur
        others = [t for t in self.tasks if t is not me and self.ready(t)]
        if not others:
            return
        k = self.cx.choice("sched", len(others) + 1)
        if k == 0:
            return
        self.budget -= 1
        # rotate so that the choice is stable
        others.sort(key=lambda t: (t.tid - me.tid) % (len(self.tasks) + 1))
        self._switch_to(others[k - 1])

    def block(self, pred, timed=False):
        """Wait until pred(); returns whether it holds (False: timed out)."""
        me = self.cur
        while True:
            if self.aborting:
                raise PathEnd()
            if pred():
                return True
            me.pred = pred
            me.timed = timed
            nxt = self._pick(True if timed else False)
            if nxt is None:
                me.pred = None
                if me.tid != 0:
                    self._switch_to(self.tasks[0])
                return False
            if nxt is me:
                me.pred = None
                me.timed = False
                return bool(pred())
            self._switch_to(nxt)
            me.pred = None
            me.timed = False
            if me.tid == 0 and self.deadlock:
                return bool(pred())
            if timed:
                return bool(pred())

    def run_all(self):
        """Main: let all tasks run to their end (or deadlock)."""
        self.block(lambda: all(t.done for t in self.tasks[1:]))
        return not self.deadlock

    def abort(self):
        self.aborting = True
        for t in self.tasks[1:]:
            if not t.done:
                t.sem.release()
        for t in self.tasks[1:]:
            if t.os_thread is not None:
                t.os_thread.join(2)
