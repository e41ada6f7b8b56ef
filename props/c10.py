"""C10: concurrency limits are never exceeded under any schedule."""
from sx import sched
from sx import rt
from sxenv.lib import caught, Fake
from props.common import ERRORS
from dataplicity.limiter import Limiter, LimitReached, LimiterError


def capacity(cx, lim, most):
    """How many further acquisitions are granted (they are given back)."""
    n = 0
    while n <= most:
        r, e = caught(lim.increment)
        if e is not None:
            cx.check(isinstance(e, LimitReached), "a refused acquisition raises the limit error")
            break
        n += 1
    for _ in range(n):
        lim.decrement()
    return n


def history(cx, n, most):
    """Any sequence of acquisitions, failing set-ups and releases on a limiter of any limit."""
    limit = cx.int("limit", 1, most)
    lim = Limiter("things", limit)
    held = 0
    for k in range(n):
        op = cx.pick("op", ["acquire", "acquire failing", "increment", "release"])
        if op == "acquire":
            ran = []

            def attempt():
                with lim():
                    ran.append(1)
            r, e = caught(attempt)
            if held < limit:
                cx.check(e is None and len(ran) == 1, "an acquisition below the limit is granted")
                held += 1
                cx.reach("granted")
            else:
                cx.check(isinstance(e, LimitReached) and not ran,
                         "an acquisition at the limit is refused with an error, without running the set-up")
                cx.reach("refused")
        elif op == "acquire failing":
            err = cx.pick("error", ERRORS) if k == 0 else ERRORS[0]
            ran = []

            def attempt():
                with lim():
                    ran.append(1)
                    raise err
            r, e = caught(attempt)
            if held < limit:
                cx.check(e is not None and len(ran) == 1, "the error of a failing set-up is reported")
                cx.check(e is err or isinstance(err, StopIteration), "the error of a failing set-up is passed on")
                cx.reach("setup failed")
            else:
                cx.check(isinstance(e, LimitReached) and not ran, "an acquisition at the limit is refused with an error")
        elif op == "increment":
            r, e = caught(lim.increment)
            if held < limit:
                cx.check(e is None, "an acquisition below the limit is granted")
                held += 1
            else:
                cx.check(isinstance(e, LimitReached), "an acquisition at the limit is refused with an error")
        else:
            r, e = caught(lim.decrement)
            if held > 0:
                cx.check(e is None, "a holder can give its acquisition back")
                held -= 1
            else:
                cx.check(isinstance(e, LimiterError), "the number of holders does not go below zero")
                cx.reach("below zero")
        cx.check(capacity(cx, lim, most) == limit - held, "exactly the free places are granted")
    cx.reach("history")


def threads(cx, count, limit, fails, direct, preemptions):
    """Threads acquire and release in every interleaving."""
    s = sched.Sched(cx, preemptions)
    lim = Limiter("things", limit)
    held = []
    most = [0]
    refused = []
    crossed = []

    def enter(i):
        held.append(i)
        cx.check(len(held) <= limit, "more holders than the limit")
        s.yield_point()

    def worker(i):
        fail = i < fails
        if direct:
            try:
                lim.increment()
            except LimitReached:
                refused.append(i)
                return
            enter(i)
            held.remove(i)
            lim.decrement()
            return
        try:
            with lim():
                enter(i)
                if fail:
                    held.remove(i)
                    raise ValueError("set-up")
        except LimitReached:
            refused.append(i)
            return
        except ValueError:
            return
        s.yield_point()
        cx.check(len(held) <= limit, "more holders than the limit")
        held.remove(i)
        lim.decrement()

    for i in range(count):
        s.spawn(lambda i=i: worker(i), "worker %d" % i)
    cx.check(s.run_all(), "no acquisition waits for good")
    cx.check(not s.crashes, "acquiring and releasing does not fail")
    if count <= limit:
        cx.check(not refused, "an acquisition below the limit is granted")
    cx.check(len(refused) < count, "an acquisition below the limit is granted")
    cx.threads = None
    cx.check(capacity(cx, lim, limit + 1) == limit, "all acquisitions are given back, once")
    cx.reach("threads")


def many(cx, limit, rounds):
    """A long life of a limiter of a large limit."""
    lim = Limiter("things", limit)
    held = 0
    refused = 0
    for k in range(rounds):
        def attempt():
            with lim():
                if k % 3 == 1:
                    raise ERRORS[k % len(ERRORS)]
        r, e = caught(attempt)
        if held >= limit:
            cx.check(isinstance(e, LimitReached), "an acquisition at the limit is refused with an error")
            refused += 1
            if refused % (limit + 3) == 0:
                while held:
                    lim.decrement()
                    held -= 1
        elif k % 3 == 1:
            cx.check(e is not None and not isinstance(e, LimitReached), "the error of a failing set-up is passed on")
        else:
            cx.check(e is None, "an acquisition below the limit is granted")
            held += 1
    cx.check(refused > 0, "an acquisition at the limit is refused with an error")
    cx.check(capacity(cx, lim, limit + 1) == limit - held, "exactly the free places are granted")
    cx.reach("many")


def waiting(cx, preemptions):
    """At the limit an acquisition is refused without waiting for the holder."""
    s = sched.Sched(cx, preemptions)
    lim = Limiter("things", 1)
    done = []

    def holder():
        with lim():
            pass
        s.block(lambda: bool(done))
        lim.decrement()

    def other():
        r, e = caught(lim.increment)
        done.append(e)

    s.spawn(holder, "holder")
    s.spawn(other, "other")
    # the holder releases only when the other's attempt has ended
    cx.check(s.run_all(), "an acquisition at the limit is refused immediately")
    cx.check(len(done) == 1, "an acquisition ends")
    cx.reach("waiting")


def plan(tier):
    t = tier == "thorough"
    p = 3 if t else 2
    cases = [{"count": 3, "limit": 2, "fails": 0, "direct": False, "preemptions": p},
             {"count": 2, "limit": 1, "fails": 1, "direct": False, "preemptions": p},
             {"count": 3, "limit": 2, "fails": 0, "direct": True, "preemptions": p},
             {"count": 2, "limit": 1, "fails": 0, "direct": True, "preemptions": p + 1},
             {"count": 2, "limit": 2, "fails": 1, "direct": False, "preemptions": p}]
    if t:
        cases.append({"count": 4, "limit": 2, "fails": 1, "direct": False, "preemptions": 2})
    return {
        "bounds": ("every sequence of %d acquisitions, failing set-ups (15 exception types) and releases for every limit "
                  "from 1 to %d; up to %d threads with every interleaving of up to %d preemptions at every line of "
                  "limiter.py" % (5 if t else 4, 4, 4 if t else 3, p + 1)) +
                  "; lives of thousands of acquisitions with limits up to 500",
        "outside": "more threads or preemptions; set-ups ended by exceptions that are not subclasses of Exception",
        "jobs": [
            {"fn": "history", "cases": [{"n": 5 if t else 4, "most": 4}],
             "reach": ["history", "granted", "refused", "setup failed", "below zero"], "weight": 2},
            {"fn": "threads", "cases": cases, "yields": ["dataplicity.limiter"], "reach": ["threads"], "weight": 3},
            {"fn": "many", "cases": [{"limit": k, "rounds": 20000 if t else 4000} for k in (1, 7, 100, 500)],
             "reach": ["many"], "max_steps": 4000000},
            {"fn": "waiting", "cases": [{"preemptions": p}], "yields": ["dataplicity.limiter"], "reach": ["waiting"]},
        ]}
