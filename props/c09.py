"""C09: messages from concurrent services reach the transport whole, one at a time."""
from sx import sched
from sxenv import wire
from sxenv.lib import caught
from props.common import *

P_ERR = {"none": None, "websocket": "w", "os": "o"}


def senders(cx, jobs, pings, preemptions, error, shared):
    """Service threads and the receive thread send at the same time, in every interleaving."""
    s = sched.Sched(cx, preemptions)
    client = new_client(cx)
    ws = client.websocket
    inside = []
    handed = []
    bad = cx.choice("failing send", sum(len(j) for j in jobs) + pings) if error != "none" else -1

    def ws_send(w, data):
        cx.check(not inside, "two threads are inside the websocket transport at the same time")
        inside.append(1)
        s.yield_point()
        n = len(handed)
        handed.append(data)
        inside.pop()
        if n == bad:
            cx.reach("failed send")
            if error == "websocket":
                raise wire.WebSocketError("x")
            raise OSError(32, "Broken pipe")
    cx.st["ws_send"] = ws_send

    expected = []

    def service(i, chan, ops):
        for k, op in enumerate(ops):
            d = b"%d:%d" % (i, k)
            if op == "write":
                r, e = caught(chan.write, d)
            elif op == "control":
                r, e = caught(chan.send_control, {"n": k})
            elif op == "send":
                r, e = caught(client.send, "request_send", channel=chan.number, data=d)
            else:
                r, e = caught(chan.close)
            cx.check(e is None or error == "os", "a transport error does not reach the sender")

    for i, ops in enumerate(jobs):
        number = 10 + (0 if shared else i)
        chan = client.get_channel(number)
        mine = []
        for k, op in enumerate(ops):
            if op == "control":
                mine.append(packet(SEND_CTRL, number, b'{"n": %d}' % k))
            elif op == "close":
                mine.append(packet(REQ_CLOSE, number))
            else:
                mine.append(packet(SEND, number, b"%d:%d" % (i, k)))
        expected.append(mine)
        s.spawn(lambda i=i, chan=chan, ops=ops: service(i, chan, ops), "service %d" % i)

    def script():
        for k in range(pings):
            yield binary(PING, b"p%d" % k)

    expected.append([packet(PONG, b"p%d" % k) for k in range(pings)])
    drive(cx, client, script())
    cx.check(s.run_all(), "no sender is blocked for good")
    cx.check(not s.crashes, "no sender fails")
    order = []
    for data in handed:
        hit = False
        for mine in expected:
            if data in mine:
                hit = True
        cx.check(hit, "every message handed to the transport is one whole packet of one sender")
    for mine in expected:
        cx.check([d for d in handed if d in mine] == mine, "the messages of each sender appear once, in its order")
    # later sends work
    n = len(handed)
    client.get_channel(10).write(b"later")
    cx.check(handed[n:] == [packet(SEND, 10, b"later")], "later sends are not blocked")
    cx.reach("senders")


def many(cx, count, size, every):
    """A long life: very many and very large messages, some of which the transport refuses."""
    client = new_client(cx)
    handed = []
    tries = [0]

    def ws_send(w, data):
        tries[0] += 1
        if every and tries[0] % every == 0:
            raise wire.WebSocketError("x") if tries[0] % 2 else OSError(32, "Broken pipe")
        handed.append(data)
    cx.st["ws_send"] = ws_send
    want = []
    more = cx.cells("data", 4)
    for i in range(count):
        d = (b"%d." % i) + more + b"x" * size
        number = i % 7 + 1
        if not every or (i + 1) % every:
            want.append(packet(SEND, number, d))
        r, e = caught(client.get_channel(number).write, d)
        cx.check(tries[0] == i + 1, "every message is handed to the transport once")
    cx.check(handed == want, "the messages of each sender appear once, whole and in its order")
    cx.reach("many")


def plan(tier):
    t = tier == "thorough"
    cases = [
        {"jobs": [["write", "write"], ["write", "control"]], "pings": 0, "preemptions": 2, "error": "none"},
        {"jobs": [["write", "close"]], "pings": 2, "preemptions": 2, "error": "none"},
        {"jobs": [["write"], ["send"]], "pings": 1, "preemptions": 2, "error": "none", "shared": True},
        {"jobs": [["write", "write"]], "pings": 1, "preemptions": 2, "error": "websocket"},
        {"jobs": [["write"], ["control"]], "pings": 0, "preemptions": 2, "error": "os", "shared": True},
    ]
    if t:
        cases += [
            {"jobs": [["write", "write"], ["control", "close"]], "pings": 1, "preemptions": 3, "error": "none"},
            {"jobs": [["write", "write"], ["write", "write"]], "pings": 1, "preemptions": 2, "error": "websocket"},
            {"jobs": [["write"], ["write"]], "pings": 1, "preemptions": 4, "error": "none", "shared": True},
        ]
    for c in cases:
        c.setdefault("shared", False)
    return {
        "bounds": ("up to three threads (services writing, sending control messages and closing, on their own channel or "
                  "a shared one, and the receive thread answering pings) with up to four messages, every interleaving "
                  "of up to %d preemptions at every line of wsclient.py and inside the transport; any one send failing" % (
                      4 if t else 2)) +
                  "; one life of thousands of messages (some refused) and messages of three megabytes",
        "outside": "more threads, messages or preemptions; preemption inside a line",
        "jobs": [{"fn": "many", "cases": [{"count": 20000 if t else 3000, "size": 3, "every": 0},
                                          {"count": 3000 if t else 1200, "size": 3, "every": 3},
                                          {"count": 4, "size": 3000000, "every": 0}],
                  "reach": ["many"], "max_steps": 4000000},
                 {"fn": "senders", "cases": cases, "yields": ["dataplicity.m2m.wsclient"],
                  "reach": ["senders"], "weight": 3}]}
