"""C07: closed channels stay closed; reopened numbers start fresh."""
import json
from sxenv.lib import caught
from props.common import *


# what the services send
CONTROLS = [{"a": 1}, {"service": "command", "type": "complete", "returncode": 0},
            {"service": "file", "type": "error", "error": "x", "msg": "y"}]


class Gen(object):
    """One life of a channel number: the object and what its callbacks saw."""

    def __init__(self, cx, chan, number, err, chatty):
        self.cx = cx
        self.chan = chan
        self.number = number
        self.open = True
        self.closes = 0
        self.got = []
        self.buffered = b""
        self.callbacks = False
        self.err = err
        self.chatty = chatty

    def set_callbacks(self):
        self.callbacks = True

        def on_close():
            self.closes += 1
            if self.chatty:
                self.chan.write(b"late")
                for c in CONTROLS:
                    self.chan.send_control(dict(c))
                self.chan.close()
            if self.err is not None:
                raise self.err

        self.chan.set_callbacks(on_data=lambda d: self.got.append(("data", d)), on_close=on_close,
                                on_control=lambda d: self.got.append(("control", d)))

    def look(self, expect_closes):
        cx = self.cx
        cx.check(self.chan.is_closed == (not self.open), "a channel is closed exactly once the server closed it")
        if self.callbacks:
            cx.check(self.closes == expect_closes, "the close callback runs exactly once, when the channel is closed")


def history(cx, n, numbers, ops):
    err = cx.pick("close callback raises", [None, ValueError("x")])
    chatty = cx.fault("close callback sends")
    client = new_client(cx)
    ws = client.websocket
    current = {}                 # number -> live generation
    old = []

    def gen(k):
        if k not in current:
            c = client.get_channel(k)
            for g in old:
                cx.check(c is not g.chan, "a number used again denotes a new channel")
            cx.check(not c.is_closed and c.size == 0 and not c, "a number used again denotes an open, empty channel")
            cx.check(c.number == k, "a channel has its number")
            current[k] = Gen(cx, c, k, err, chatty)
        return current[k]

    def end(k):
        g = current.pop(k)
        g.open = False
        old.append(g)

    def script():
        for i in range(n):
            op = cx.pick("op", ops)
            k = cx.pick("number", numbers)
            j = len(ws.sent)
            expected = []
            seen = [(g, len(g.got)) for g in list(current.values()) + old]
            target = None
            if op == "open":
                yield binary(NOTIFY_OPEN, k)
                gen(k)
            elif op == "data":
                d = cx.cells("d", 1)
                if k in current and current[k].callbacks:
                    target = (current[k], [("data", d)])
                yield binary(ROUTE, k, d)
                g = gen0(k)
                if not g.callbacks:
                    g.buffered = g.buffered + d
            elif op == "control":
                d = cx.cells("d", 1)
                if k in current and current[k].callbacks:
                    target = (current[k], [("control", d)])
                yield binary(ROUTE_CTRL, k, d)
                gen0(k)
            elif op == "use":
                g = gen(k)
                g.set_callbacks()
            elif op == "server close":
                if k in current:
                    end(k)
                yield binary(NOTIFY_CLOSE, k)
                cx.reach("closed")
            elif op == "drop":
                for x in list(current):
                    end(x)
                yield event("disconnected")
                cx.reach("dropped")
            elif op == "agent":
                # the agent uses every channel object it holds
                for g in old + list(current.values()):
                    g.chan.write(b"out")
                    for c in CONTROLS:
                        g.chan.send_control(dict(c))
                    g.chan.close()
                    if g.open:
                        expected.append(packet(SEND, g.number, b"out"))
                        expected += [packet(SEND_CTRL, g.number, json.dumps(c).encode("ascii")) for c in CONTROLS]
                        expected.append(packet(REQ_CLOSE, g.number))
            cx.check(ws.sent[j:] == expected, "an open channel sends what it is asked to, a closed one sends nothing")
            for g in old:
                g.look(1)
            for g in current.values():
                g.look(0)
            for g, c in seen:
                if target is not None and g is target[0]:
                    cx.check(same_value([list(x) for x in g.got[c:]], [list(x) for x in target[1]]),
                             "an open channel delivers what arrives")
                else:
                    cx.check(len(g.got) == c, "nothing is delivered to a closed or another channel")
            for x in current:
                cx.check(client.has_channel(x), "an open channel stays known")
            for x in list(client.open_channels):
                cx.check(x in current, "a closed channel is not listed as open")
        for g in old:
            # what was still under way for a channel when it closed
            c = len(g.got)
            g.chan.on_data(b"late")
            g.chan.on_control(b"late")
            g.chan.on_close()
            cx.check(len(g.got) == c, "nothing is delivered to a closed channel")
            g.look(1)
        for g in old + list(current.values()):
            if g.open:
                cx.check(g.chan.read(99) == g.buffered, "a channel holds the data of its own life only")

    def gen0(k):
        # the channel exists now: take it up as it is
        if k not in current:
            c = client.get_channel(k)
            for g in old:
                cx.check(c is not g.chan, "a number used again denotes a new channel")
            cx.check(not c.is_closed, "a number used again denotes an open channel")
            current[k] = Gen(cx, c, k, err, chatty)
        return current[k]

    drive(cx, client, script())
    cx.reach("history")


def plain(cx, numbers):
    """Several channels, with and without callbacks, some with data waiting: all are closed."""
    client = new_client(cx)
    runs = [0] * len(numbers)
    chans = []
    with_callback = [cx.fault("callback") for _ in numbers]
    with_data = [cx.fault("data") for _ in numbers]

    def setup(i):
        def on_close():
            runs[i] += 1
        c = client.get_channel(numbers[i])
        if with_callback[i]:
            c.set_callbacks(on_close=on_close)
        chans.append(c)
    for i in range(len(numbers)):
        setup(i)
    how = cx.pick("how", ["drop", "close one", "close all"])

    def script():
        for i in range(len(numbers)):
            if with_data[i]:
                yield binary(ROUTE, numbers[i], b"data")
        if how == "drop":
            yield event("disconnected")
            gone = list(range(len(numbers)))
        elif how == "close one":
            gone = [cx.choice("closed", len(numbers))]
            yield binary(NOTIFY_CLOSE, numbers[gone[0]])
        else:
            gone = list(range(len(numbers)))
            for i in gone:
                yield binary(NOTIFY_CLOSE, numbers[i])
        for i in range(len(numbers)):
            cx.check(chans[i].is_closed == (i in gone), "a channel is closed exactly once the server closed it")
            cx.check(runs[i] == (1 if i in gone and with_callback[i] else 0), "each close callback runs once")
            cx.check(client.has_channel(numbers[i]) == (i not in gone), "a closed channel is not listed as open")
        for i in gone:
            c = client.get_channel(numbers[i])
            cx.check(c is not chans[i] and not c.is_closed and c.size == 0, "a number used again denotes an open, empty channel")

    drive(cx, client, script())
    cx.reach("plain")


def isolation(cx, count):
    """One failing close callback among several channels does not keep the others from being closed."""
    client = new_client(cx)
    bad = cx.choice("bad", count)
    err = cx.pick("error", ERRORS)
    runs = [0] * count
    chans = []

    def setup(i):
        def on_close():
            runs[i] += 1
            if i == bad:
                raise err
        c = client.get_channel(i)
        c.set_callbacks(on_close=on_close)
        chans.append(c)
    for i in range(count):
        setup(i)
    how = cx.pick("how", ["drop", "close"])
    client.add_callback(4, lambda r: runs.append(r))

    def script():
        if how == "drop":
            yield event("disconnected")
        else:
            for i in range(count):
                yield binary(NOTIFY_CLOSE, i)
        for i in range(count):
            cx.check(runs[i] == 1, "each close callback runs once")
            cx.check(chans[i].is_closed, "each channel is closed")
        yield event("disconnected")
        yield binary(NOTIFY_CLOSE, 0)
        for i in range(count):
            cx.check(runs[i] == 1, "a close callback does not run again")

    drive(cx, client, script())
    cx.reach("isolation")


def many(cx, n, lives):
    """Many channels at a time, their numbers used again and again."""
    client = new_client(cx)
    ws = client.websocket
    d = cx.cells("d", 2)
    chans = []

    def script():
        for life in range(lives):
            runs = {}
            del chans[:]
            for i in range(n):
                yield binary(NOTIFY_OPEN, i)
                c = client.get_channel(i)
                cx.check(not c.is_closed and c.size == 0, "a number used again denotes an open, empty channel")
                if i % 3:
                    c.set_callbacks(on_close=lambda i=i: runs.update({i: runs.get(i, 0) + 1}))
                if i % 2:
                    yield binary(ROUTE, i, d)
                chans.append(c)
            if life % 2:
                for i in range(n):
                    yield binary(NOTIFY_CLOSE, i)
            else:
                yield event("disconnected")
            k = len(ws.sent)
            bad = [i for i in range(n) if not chans[i].is_closed or runs.get(i, 0) != (1 if i % 3 else 0)]
            cx.check(bad == [], "each affected channel is closed, its close callback runs once")
            chans[-1].write(b"x")
            chans[-1].close()
            chans[0].close()
            cx.check(len(ws.sent) == k, "a closed channel sends nothing")

    drive(cx, client, script())
    cx.reach("many")


P_OPS = ["open", "data", "use", "server close", "drop", "agent", "control"]


def plan(tier):
    t = tier == "thorough"
    return {
        "bounds": "every sequence of %d operations on one channel number and of %d on two, out of: opened by the server, "
                  "data, control, callbacks set, closed by the server, connection dropped, write / control / close "
                  "asked of every channel object held so far; the close callback may raise and may itself use the "
                  "channel; up to 4 channels with one close callback raising any of 15 exception types; two or three channels each with or without "
                  "callback and waiting data, closed or dropped; %d channels at a time and 600 lives of the same numbers" % (
                      6 if t else 5, 4 if t else 3, 5000 if t else 1100),
        "outside": "longer histories; a write already under way on another thread when the channel closes",
        "jobs": [
            {"fn": "history", "cases": [{"n": 6 if t else 5, "numbers": [5],
                                         "ops": ["data", "use", "server close", "drop", "agent"]},
                                        {"n": 4, "numbers": [5], "ops": P_OPS},
                                        {"n": 4 if t else 3, "numbers": [3, 8], "ops": P_OPS}],
             "reach": ["history", "closed", "dropped"], "weight": 3},
            {"fn": "plain", "cases": [{"numbers": [7, 8, 9]}, {"numbers": [10, 9]}], "reach": ["plain"]},
            {"fn": "many", "cases": [{"n": 5000 if t else 1100, "lives": 2}, {"n": 3, "lives": 600}], "reach": ["many"],
             "max_steps": 2000000},
            {"fn": "isolation", "cases": [{"count": 2}, {"count": 4 if t else 3}], "reach": ["isolation"]},
        ]}
