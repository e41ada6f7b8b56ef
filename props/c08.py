"""C08: each server command response reaches its callbacks exactly once."""
from sx import sched
from sxenv.lib import caught
from props.common import *


def history(cx, n, wide):
    """Callbacks registered, answered and dropped in any order; callbacks may raise or register further ones."""
    client = new_client(cx)
    ids = [cx.int("id", 0, 10 ** 6), cx.int("id", 0, 9)] if wide else [1, 2]
    cx.assume(ids[0] != ids[1])
    regs = []                    # [id index, calls, expected]
    behave = cx.pick("callbacks", ["fine", "raise", "register other", "register same"])
    empty = behave == "fine" and not wide and cx.fault("empty results")
    err = cx.pick("error", [ValueError("x"), OSError(5, "x"), KeyError("x")]) if behave == "raise" else None

    def register(i, deep):
        r = [i, [], None]
        regs.append(r)

        def cb(result):
            r[1].append(result)
            if deep and behave == "register other":
                register(1 - i, False)
            if deep and behave == "register same":
                register(i, False)
            if behave == "raise":
                raise err
        client.add_callback(ids[i], cb)

    def script():
        for k in range(n):
            op = cx.pick("op", ["add", "respond", "drop", "strange"] if k < n - 1 else ["respond", "drop"])
            pending = [r for r in regs if r[2] is None]
            if op == "add":
                register(cx.choice("which", 2), True)
            elif op == "respond":
                i = cx.choice("which", 2)
                result = {b"r": cx.int("result", 0, 9) if wide else k}
                if empty:
                    result = {}
                for r in pending:
                    if r[0] == i:
                        r[2] = ("result", result)
                yield binary(RESPONSE, ids[i], result)
                cx.reach("respond")
            elif op == "drop":
                for r in pending:
                    r[2] = ("none",)
                yield event("disconnected")
                cx.reach("drop")
            else:
                other = cx.int("other id", 0, 9) if wide else 3
                cx.assume(other != ids[0])
                cx.assume(other != ids[1])
                yield binary(RESPONSE, other, {b"r": 1})
            for r in regs:
                if r[2] is None:
                    cx.check(len(r[1]) == 0, "a callback is not invoked before its own response or a disconnect")
                else:
                    cx.check(len(r[1]) == 1, "a callback is invoked exactly once")
                    if r[2][0] == "none":
                        cx.check(r[1][0] is None, "on a disconnect a callback gets no result")
                    else:
                        cx.check(r[1][0] is not None and same_value(r[1][0], r[2][1]),
                                 "a callback gets the result of its response")

    drive(cx, client, script())
    cx.reach("history")


def several(cx, count):
    """Several callbacks for one id: an exception in one does not keep the others from being invoked."""
    client = new_client(cx)
    bad = cx.choice("bad", count)
    result = cx.pick("result", [{b"r": 1}, {}])
    err = cx.pick("error", ERRORS)
    calls = [[] for _ in range(count)]

    def add(i):
        def cb(result):
            calls[i].append(result)
            if i == bad:
                raise err
        client.add_callback(cx.int("id", 0, 3) if how == "drop" else 2, cb)
    how = cx.pick("how", ["respond", "drop"])
    for i in range(count):
        add(i)

    def script():
        yield event("disconnected") if how == "drop" else binary(RESPONSE, 2, result)
        for c in calls:
            cx.check(len(c) == 1, "every callback is invoked exactly once")
            if how == "drop":
                cx.check(c[0] is None, "on a disconnect a callback gets no result")
            else:
                cx.check(c[0] == result, "a callback gets the result of its response")
        yield binary(RESPONSE, 2, {b"r": 1})
        yield event("disconnected")
        for c in calls:
            cx.check(len(c) == 1, "every callback is invoked exactly once")

    drive(cx, client, script())
    cx.reach("several")


def race(cx, preemptions, first):
    """A service thread registers a callback while the receive thread handles the response and a disconnect."""
    s = sched.Sched(cx, preemptions)
    client = new_client(cx)
    calls = []
    if first:
        client.add_callback(2, lambda r: calls.append("first"))

    def service():
        client.add_callback(2, lambda r: calls.append("second"))

    s.spawn(service, "service")

    def script():
        if cx.fault("responded"):
            yield binary(RESPONSE, 2, {b"r": 1})
        yield event("disconnected")

    drive(cx, client, script())
    cx.check(s.run_all(), "no thread is left waiting")
    cx.check(not s.crashes, "registering does not fail")

    def later():
        yield event("disconnected")

    drive(cx, client, later())
    cx.check(sorted(calls) == (["first", "second"] if first else ["second"]),
             "a callback registered at any moment is invoked exactly once by the next response or disconnect")
    cx.reach("race")


def many(cx, n, same):
    """Many callbacks, for many ids or for one."""
    client = new_client(cx)
    calls = [[] for _ in range(n)]
    r = {b"r": cx.int("r", 10, 99)}

    def add(i):
        def cb(result):
            calls[i].append(result)
            if i % 5 == 0:
                raise ValueError("x")
        client.add_callback(7 if same else i, cb)

    for i in range(n):
        add(i)

    def script():
        if same:
            yield binary(RESPONSE, 7, r)
        else:
            for i in range(0, n, 2):
                yield binary(RESPONSE, i, r)
            cx.check(not [c for c in calls[1::2] if c], "a response with another id never invokes a callback")
        yield event("disconnected")
        cx.check(not [c for c in calls if len(c) != 1], "every callback is invoked exactly once")
        for i in range(n):
            answered = same or i % 2 == 0
            cx.check(calls[i][0] == r if answered else calls[i][0] is None,
                     "a callback gets the result of its response, or none on a disconnect")
        yield binary(RESPONSE, 7 if same else 1, r)
        yield event("disconnected")
        cx.check(not [c for c in calls if len(c) != 1], "every callback is invoked exactly once")
    drive(cx, client, script())
    cx.reach("many")


def plan(tier):
    t = tier == "thorough"
    return {
        "bounds": "every sequence of %d registrations, responses, strange responses and disconnects over two ids (of "
                  "%d over any two ids up to 10^6), with callbacks that raise or register further callbacks; up to %d callbacks "
                  "with one raising any of 15 exception types; a registration racing with a response and a disconnect "
                  "in every interleaving of up to %d preemptions at every line; %d callbacks at a time" % (6 if t else 5, 4 if t else 3, 4 if t else 3, 4 if t else 3, 5000 if t else 1100),
        "outside": "longer histories",
        "jobs": [
            {"fn": "history", "cases": [{"n": 6 if t else 5, "wide": False}, {"n": 4 if t else 3, "wide": True}],
             "reach": ["history", "respond", "drop"], "weight": 3},
            {"fn": "several", "cases": [{"count": 2}, {"count": 4 if t else 3}], "reach": ["several"]},
            {"fn": "many", "cases": [{"n": 5000 if t else 1100, "same": s} for s in (False, True)], "reach": ["many"],
             "max_steps": 2000000},
            {"fn": "race", "cases": [{"preemptions": 4 if t else 3, "first": f} for f in (False, True)],
             "yields": ["dataplicity.m2m.wsclient"], "reach": ["race"], "weight": 2},
        ]}
