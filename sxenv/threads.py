"""Models of threading and time.

Without a scheduler (cx.threads is None) started threads are queued and run by the harness (run_threads);
with one they are tasks of the scheduler (sx.sched).
"""
from sx import rt


def st():
    cx = rt.cx
    return cx.st


def current():
    cx = rt.cx
    if cx is None:
        return 0
    if cx.threads is not None:
        return cx.threads.cur.tid
    return cx.st.get("task", 0)


def deadlock(what):
    rt.cx.fail("DEADLOCK: " + what)


class Thread(object):
    _count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target = target
        self._args = args
        self._kwargs = kwargs if kwargs is not None else {}
        self.name = name or "Thread"
        self.daemon = bool(daemon)
        self._started_ = False
        self._done_ = False
        self._running_ = False
        self._tid_ = None
        self._exc_ = None
        self._task_ = None

    @property
    def ident(self):
        return self._tid_

    native_id = ident

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if not hasattr(self, "_started_"):
            raise RuntimeError("thread.__init__() not called")
        if self._started_:
            raise RuntimeError("threads can only be started once")
        cx = rt.cx
        f = cx.st.get("thread_fault")
        if f is not None and f(self):
            raise RuntimeError("can't start new thread")
        self._started_ = True
        cx.st.setdefault("started", []).append(self)
        if cx.threads is not None:
            self._task_ = cx.threads.spawn(self._bootstrap, self.name)
            self._tid_ = self._task_.tid
            cx.threads.yield_point()
        else:
            n = cx.st.get("ntasks", 0) + 1
            cx.st["ntasks"] = n
            self._tid_ = n
            cx.st.setdefault("queue", []).append(self)

    def _bootstrap(self):
        cx = rt.cx
        self._running_ = True
        if cx.threads is None:
            old = cx.st.get("task", 0)
            cx.st["task"] = self._tid_
            cx.st.setdefault("running", []).append(self)
            try:
                self._call()
            finally:
                cx.st["running"].pop()
                cx.st["task"] = old
                self._done_ = True
        else:
            try:
                self._call()
            finally:
                self._done_ = True

    def _call(self):
        try:
            self.run()
        except SystemExit:
            pass
        except Exception as e:
            self._exc_ = e
            rt.cx.st.setdefault("crashes", []).append((self, e))

    def is_alive(self):
        return self._started_ and not self._done_

    def join(self, timeout=None):
        cx = rt.cx
        if not self._started_:
            raise RuntimeError("cannot join thread before it is started")
        if self._done_:
            return
        if cx.threads is not None:
            cx.threads.block(lambda: self._done_, timeout is not None)
            return
        if not self._running_ and self in cx.st.get("queue", []):
            cx.st["queue"].remove(self)
            self._bootstrap()
            return
        if timeout is None:
            if self._tid_ == current():
                raise RuntimeError("cannot join current thread")
            deadlock("join of a thread that cannot end")

    def getName(self):
        return self.name

    def setName(self, n):
        self.name = n

    def isDaemon(self):
        return self.daemon

    def setDaemon(self, d):
        self.daemon = d


def run_threads(limit=1000):
    """Run the queued threads (and those they start) to their end."""
    cx = rt.cx
    n = 0
    while cx.st.get("queue"):
        t = cx.st["queue"].pop(0)
        t._bootstrap()
        n += 1
        if n >= limit:
            break
    return n


def as_task(tid, fn, *args):
    """Run fn as if on another thread (an event handled while the current thread is inside a system call)."""
    cx = rt.cx
    old = cx.st.get("task", 0)
    cx.st["task"] = tid
    try:
        return fn(*args)
    finally:
        cx.st["task"] = old


class Lock(rt.Model):
    reentrant = False

    def __init__(self):
        self._epoch = rt.cx
        self._owner = None
        self._count = 0

    def _sync(self):
        if self._epoch is not rt.cx:
            self._epoch = rt.cx
            self._owner = None
            self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        cx = rt.cx
        if cx is None:
            return True
        self._sync()
        me = current()
        if cx.threads is not None:
            cx.threads.yield_point()
        if self._owner is not None and not (self.reentrant and self._owner == me):
            if not blocking:
                return False
            if cx.threads is not None:
                timed = not (timeout == -1)
                if not timed and self._owner == me:
                    deadlock("a thread acquires a lock it holds")
                if not cx.threads.block(lambda: self._owner is None, timed):
                    if timed:
                        return False
                    deadlock("waiting for a lock that is never released")
            else:
                if self._owner == me:
                    deadlock("a thread acquires a lock it holds")
                if self._owner in [t._tid_ for t in cx.st.get("running", [])] or self._owner == 0:
                    # the owner is suspended below us: this order of events cannot happen here
                    cx.stop()
                deadlock("a lock was left held by a thread that has ended")
        self._owner = me
        self._count += 1
        return True

    def release(self):
        cx = rt.cx
        if cx is None:
            return
        self._sync()
        if self._owner is None or (self.reentrant and self._owner != current()):
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count <= 0:
            self._count = 0
            self._owner = None
        if cx.threads is not None and not cx.dead:
            cx.threads.yield_point()

    def locked(self):
        self._sync()
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    # Condition protocol
    def _is_owned(self):
        self._sync()
        return self._owner == current()


class RLock(Lock):
    reentrant = True


class Event(rt.Model):
    def __init__(self):
        self._epoch = rt.cx
        self._flag = False

    def _sync(self):
        if self._epoch is not rt.cx:
            self._epoch = rt.cx
            self._flag = False

    def is_set(self):
        self._sync()
        return self._flag

    isSet = is_set

    def set(self):
        self._sync()
        self._flag = True
        cx = rt.cx
        if cx is not None and cx.threads is not None:
            cx.threads.yield_point()

    def clear(self):
        self._sync()
        self._flag = False

    def wait(self, timeout=None):
        cx = rt.cx
        self._sync()
        h = cx.st.get("event_wait")
        if h is not None:
            return h(self, timeout)
        if self._flag:
            return True
        if cx.threads is not None:
            return cx.threads.block(lambda: self._flag, timeout is not None)
        if timeout is None:
            deadlock("waiting for an event that is never set")
        if timeout > 0:
            advance(timeout)
        return self._flag


class Semaphore(rt.Model):
    def __init__(self, value=1):
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        cx = rt.cx
        if cx is not None and cx.threads is not None:
            cx.threads.yield_point()
        if self._value <= 0:
            if not blocking:
                return False
            if cx.threads is not None:
                if not cx.threads.block(lambda: self._value > 0, timeout is not None):
                    if timeout is not None:
                        return False
                    deadlock("waiting for a semaphore")
            elif timeout is not None:
                return False
            else:
                deadlock("waiting for a semaphore")
        self._value -= 1
        return True

    def release(self, n=1):
        self._value += n
        cx = rt.cx
        if cx is not None and cx.threads is not None:
            cx.threads.yield_point()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class BoundedSemaphore(Semaphore):
    def __init__(self, value=1):
        Semaphore.__init__(self, value)
        self._initial = value

    def release(self, n=1):
        if self._value + n > self._initial:
            raise ValueError("Semaphore released too many times")
        Semaphore.release(self, n)


class Condition(rt.Model):
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else RLock()
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self._gen = 0
        self._waiters = []

    def __enter__(self):
        self._lock.acquire()
        return True

    def __exit__(self, *a):
        self._lock.release()

    def wait(self, timeout=None):
        cx = rt.cx
        w = [False]
        self._waiters.append(w)
        self._lock.release()
        if cx.threads is not None:
            r = cx.threads.block(lambda: w[0], timeout is not None)
        elif timeout is not None:
            r = w[0]
        else:
            r = False
            deadlock("waiting for a condition")
        self._lock.acquire()
        return r

    def wait_for(self, pred, timeout=None):
        r = pred()
        while not r:
            if not self.wait(timeout) and timeout is not None:
                return pred()
            r = pred()
        return r

    def notify(self, n=1):
        for w in self._waiters[:n]:
            w[0] = True
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class Local(object):
    pass


class _Main(Thread):
    def __init__(self):
        Thread.__init__(self, name="MainThread")
        self._started_ = True
        self._tid_ = 0


def current_thread():
    cx = rt.cx
    if cx is not None and cx.threads is None and cx.st.get("running"):
        return cx.st["running"][-1]
    for t in (cx.st.get("started", []) if cx is not None else []):
        if t._tid_ == current():
            return t
    return _Main()


def get_ident():
    return current()


def active_count():
    return 1 + len([t for t in rt.cx.st.get("started", []) if t.is_alive()])


# ---------------------------------------------------------------- time
def now():
    """A clock reading; policy cx.st['clock']: 'frozen' (default), 'monotone', 'free', or a callable."""
    cx = rt.cx
    if cx is None:
        return 1000000.0
    s = cx.st
    policy = s.get("clock", "frozen")
    if not isinstance(policy, str):
        return policy()
    if "now" not in s:
        s["now"] = 1000000.0
    if policy == "monotone":
        s["now"] = s["now"] + cx.real("dt", 0, 1000000)
    elif policy == "free":
        s["now"] = cx.real("clock", 0, 4000000)
    return s["now"]


def advance(d):
    s = rt.cx.st
    if "now" not in s:
        s["now"] = 1000000.0
    s["now"] = s["now"] + d


def sleep(d):
    cx = rt.cx
    if d < 0:
        raise ValueError("sleep length must be non-negative")
    h = cx.st.get("sleep")
    if h is not None:
        h(d)
    else:
        advance(d)
    if cx.threads is not None:
        cx.threads.yield_point()


TIME = {"time": now, "sleep": sleep, "monotonic": now, "perf_counter": now, "clock": now,
        "process_time": now}
THREADING = {"Thread": Thread, "Lock": Lock, "RLock": RLock, "Event": Event, "Semaphore": Semaphore,
             "BoundedSemaphore": BoundedSemaphore, "Condition": Condition, "local": Local,
             "current_thread": current_thread, "currentThread": current_thread, "get_ident": get_ident,
             "active_count": active_count, "TIMEOUT_MAX": 4294967.0}
