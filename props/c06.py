"""C06: channel data is delivered once, in order and complete."""
from sx import sched
from sxenv.lib import caught, total, And
from props.common import *


def history(cx, n, numbers, lim):
    """Data for two channels arrives in any order between buffered reads of any sizes."""
    client = new_client(cx)
    chans = [client.get_channel(k) for k in numbers]
    buf = [b"" for _ in numbers]           # what each channel must hold

    def look(i):
        cx.check(chans[i].size == len(buf[i]), "the channel reports how many bytes are buffered")
        cx.check(bool(chans[i]) == (len(buf[i]) > 0), "the channel reports whether bytes are buffered")

    def script():
        for k in range(n):
            i = cx.choice("channel", len(numbers)) if k else 0
            op = cx.pick("op", ["data", "read", "control"] if k < n - 1 else ["read"])
            if op == "data":
                d = cx.bytes("d", 0, lim)
                buf[i] = buf[i] + d
                yield binary(ROUTE, numbers[i], d)
            elif op == "control":
                yield binary(ROUTE_CTRL, numbers[i], b"ctrl")
            else:
                count = cx.int("count", 0, 3 * lim)
                if len(buf[i]) > 0 and cx.fault("blocking"):
                    got = chans[i].read(count, timeout=cx.pick("timeout", [None, 5]), block=True)
                else:
                    got = chans[i].read(count)
                have = len(buf[i])
                want = count if count < have else have
                cx.observe(got)
                cx.check(len(got) == want, "a read returns as many bytes as are buffered up to the number asked for")
                cx.check(got == buf[i][:want], "a read returns the bytes routed to the channel, in order")
                buf[i] = buf[i][want:]
                cx.reach("read")
            for j in range(len(numbers)):
                look(j)
        for j in range(len(numbers)):
            rest = chans[j].read(100 * lim)
            cx.check(rest == buf[j], "everything routed to the channel can be read")
            cx.check(chans[j].size == 0 and not chans[j], "nothing is left")
            cx.check(chans[j].read(5) == b"", "nothing is delivered twice")

    drive(cx, client, script())
    cx.reach("history")


def callbacks(cx, n, lim):
    """Data delivered through callbacks: to the right channel's callback only, whole and in order."""
    numbers = [7, 10 ** 6]
    seen = []
    control = []

    def watch(channel, data):
        seen.append((channel.number, data))
        if cx.fault("watcher"):
            raise ValueError("x")

    client = new_client(cx, channel_callback=watch if cx.fault("watched") else None)
    got = [b"", b""]
    ctl = [[], []]
    sent = [b"", b""]
    sentc = [[], []]
    early = [b"", b""]
    chans = [client.get_channel(k) for k in numbers]

    def setup(i):
        def on_data(d):
            got[i] = got[i] + d
            count[0] += 1
            if count[0] == bad:
                raise ValueError("x")

        def on_control(d):
            ctl[i].append(d)
        if i == 1 and deaf:
            chans[i].set_callbacks(on_data=on_data)
        else:
            chans[i].set_callbacks(on_data=on_data, on_control=on_control)

    mood = cx.pick("callbacks", ["fine", "no control", "first fails", "second fails"])
    deaf = mood == "no control"
    bad = {"first fails": 1, "second fails": 2}.get(mood, 0)
    count = [0]
    at = cx.choice("callback set", n)
    setup(0)

    def script():
        for k in range(n):
            if k == at:
                setup(1)
            i = cx.choice("channel", 2)
            d = cx.bytes("d", 1, lim)
            if cx.fault("control"):
                yield binary(ROUTE_CTRL, numbers[i], d)
                if i == 0 or (k >= at and not deaf):
                    sentc[i].append(d)
            else:
                yield binary(ROUTE, numbers[i], d)
                if i == 1 and k < at:
                    early[1] = early[1] + d
                else:
                    sent[i] = sent[i] + d
            for j in (0, 1):
                cx.check(got[j] == sent[j], "the data callback gets exactly the bytes routed to its channel, in order")
                cx.check(same_value(ctl[j], sentc[j]), "control data goes to its channel's control callback")
        cx.check(chans[1].read(1000) == early[1], "bytes that came before a callback was set stay readable")
        cx.check(chans[0].size == 0 and chans[0].read(10) == b"", "nothing is delivered twice")

    drive(cx, client, script())
    cx.reach("callbacks")


def concurrent(cx, chunks, sizes, preemptions, peek=0):
    """A service thread reads (waiting for data, the first `peek` times only looking) while the receive thread
    delivers, in every interleaving."""
    s = sched.Sched(cx, preemptions)
    client = new_client(cx)
    chan = client.get_channel(1)
    data = [cx.cells("d", k) for k in chunks]
    whole = total(data)
    got = []

    def reader():
        have = 0
        i = 0
        while have < len(whole):
            if i < peek:
                r = chan.read(sizes[i % len(sizes)])
            else:
                r = chan.read(sizes[i % len(sizes)], block=True)
                cx.check(len(r) > 0, "a read that waited returns data")
            got.append(r)
            have += len(r)
            i += 1

    s.spawn(reader, "reader")

    def script():
        for d in data:
            yield binary(ROUTE, 1, d)

    drive(cx, client, script())
    cx.check(s.run_all(), "a waiting reader gets the data that arrived")
    cx.check(not s.crashes, "a reader does not fail")
    cx.check(total(got) == whole, "the reads give the bytes in order, once")
    cx.check(chan.size == 0 and not chan, "nothing is left")
    cx.reach("concurrent")


def many(cx, n, reads, numbers, every=1):
    """A long backlog for a channel nobody reads yet, next to another channel's."""
    client = new_client(cx)
    chans = [client.get_channel(k) for k in numbers]
    parts = [[] for _ in numbers]

    def script():
        for k in range(n):
            i = 0 if k % 3 else len(numbers) - 1
            d = b"%d" % k if k % every else cx.cells("d", 1 + k % 2)
            parts[i].append(d)
            yield binary(ROUTE, numbers[i], d)
        for i in range(len(numbers)):
            whole = total(parts[i])
            cx.check(chans[i].size == len(whole), "the channel reports how many bytes are buffered")
            for count in reads:
                r = chans[i].read(count)
                cx.check(r == whole[:count], "a read returns the bytes routed to the channel, in order")
                whole = whole[count:]
            cx.check(chans[i].size == len(whole), "the channel reports how many bytes are left")
            cx.check(chans[i].read(10 ** 6) == whole, "everything routed to the channel can be read")
            cx.check(chans[i].size == 0 and not chans[i], "nothing is left")

    drive(cx, client, script())
    cx.reach("many")


def large(cx, lo, hi, count):
    """Messages of any size."""
    client = new_client(cx)
    c = client.get_channel(1)
    other = client.get_channel(2)
    got = []
    other.set_callbacks(on_data=got.append)
    parts = [cx.bytes("d", lo, hi) for _ in range(count)]

    def script():
        for d in parts:
            yield binary(ROUTE, 1, d)
            yield binary(ROUTE, 2, d)
        whole = total(parts)
        cx.check(c.size == len(whole), "the channel reports how many bytes are buffered")
        n = cx.int("read", 0, hi)
        r = c.read(n)
        cx.check(r == whole[:n], "a read returns the bytes routed to the channel, in order")
        cx.check(c.read(10 ** 12) == whole[n:], "everything routed to the channel can be read")
        cx.check(len(got) == count and total(got) == whole, "a callback gets the bytes routed to its channel")
    drive(cx, client, script())
    cx.reach("large")


def impatient(cx, timeout):
    """A read that may wait for a while only, or not at all."""
    client = new_client(cx)
    c = client.get_channel(1)

    def script():
        cx.check(c.read(5, timeout=timeout, block=True) == b"", "nothing is read if nothing comes in time")
        yield binary(ROUTE, 1, b"abc")
        cx.check(c.read(2, timeout=timeout, block=True) == b"ab", "what is there is read at once")
        cx.check(c.read(2, timeout=timeout, block=True) == b"c", "what is there is read at once")
        cx.check(c.read(2, timeout=timeout, block=True) == b"", "nothing is read if nothing comes in time")
        yield event("disconnected")
    drive(cx, client, script())
    cx.reach("impatient")


def plan(tier):
    t = tier == "thorough"
    conc = [{"chunks": [2, 2], "sizes": [3, 2], "preemptions": 3 if t else 2},
            {"chunks": [1, 2, 1], "sizes": [1, 4], "preemptions": 2},
            {"chunks": [2, 1], "sizes": [2], "preemptions": 3 if t else 2, "peek": 1},
            {"chunks": [1, 1], "sizes": [4], "preemptions": 2, "peek": 2}]
    if t:
        conc.append({"chunks": [2, 1], "sizes": [1], "preemptions": 4})
    return {
        "bounds": "every sequence of %d operations on two channels and of %d on one (data of 0 to %d arbitrary bytes for either of two channels, reads of "
                  "any size, waiting or not, control packets); every sequence of %d deliveries to callbacks on two "
                  "channels; a waiting reader (that may first look without waiting) against two or three deliveries with every "
                  "interleaving of up to %d preemptions at every line; a backlog of %d deliveries read afterwards; messages of up to 10^7 bytes" % (4 if t else 3, 5 if t else 4, 9, 4 if t else 3, 4 if t else 2, 20000 if t else 12500),
        "outside": "longer histories, more preemptions",
        "jobs": [
            {"fn": "history", "cases": [{"n": 4 if t else 3, "numbers": [1, 2], "lim": 9},
                                        {"n": 5 if t else 4, "numbers": [70000], "lim": 9}],
             "reach": ["history", "read"], "weight": 4},
            {"fn": "callbacks", "cases": [{"n": 4 if t else 3, "lim": 9}], "reach": ["callbacks"], "weight": 2},
            {"fn": "many", "cases": [{"n": 400 if not t else 1500, "reads": [1, 7, 64, 65], "numbers": [3, 4]},
                                     {"n": 20000 if t else 12500, "reads": [1, 7, 4096, 65536], "numbers": [3, 4],
                                      "every": 1500},
                                     {"n": 12, "reads": [1, 1, 2], "numbers": [9]}], "reach": ["many"], "weight": 2,
             "max_steps": 2000000},
            {"fn": "large", "cases": [{"lo": 1000000, "hi": 9999999, "count": 2}, {"lo": 10000, "hi": 99999, "count": 3}],
             "reach": ["large"]},
            {"fn": "impatient", "cases": [{"timeout": x} for x in (0, 0.5, 3)], "reach": ["impatient"], "hang": True},
            {"fn": "concurrent", "cases": conc, "yields": ["dataplicity.m2m.wsclient"], "reach": ["concurrent"],
             "weight": 3},
        ]}
