"""C15: port-forwarded bytes are relayed in order and complete in both directions."""
import errno
from sx import sched
from props.stack import *
from sxenv import fs as fsenv


def open_forward(cx, st, chan, how):
    if how == "service":
        st.instruct(action=b"open-portforward", service=b"alt", route=[b"a", 1, b"b", chan])
    else:
        st.instruct(action=b"open-portredirect", m2m_port=chan, device_port=8080)


def total(parts):
    r = b""
    for p in parts:
        r = r + p
    return r


def down(cx, steps, moves, how, sizes=(10, 99)):
    """Whatever the local server sends, in whatever pieces, and however its stream ends."""
    st = Stack(cx)
    left = [steps]

    def step():
        p = n.peers[0]
        m = cx.pick("server", moves) if left[0] > 0 else "eof"
        left[0] -= 1
        if not (p.inp.closed or p.broken):
            if "data" in m:
                p.inp.put(cx.bytes("d", *sizes))
            if "eof" in m:
                p.inp.closed = True
            if "reset" in m:
                p.broken = True
        elif left[0] < 0:
            p.inp.closed = True

    n = Net(cx, step)
    n.world.over = lambda: bool(n.peers) and n.peers[0].ended()
    open_forward(cx, st, 5, how)
    st.run()
    data, control, closes = st.sent_on(5)
    for d in data:
        cx.check(len(d) > 0, "no empty data is sent")
    p = n.peers[0]
    cx.observe(len(data), closes)
    cx.check(total(data) == p.inp.total, "every byte of the local server is sent on the channel once and in order")
    cx.check(not control, "nothing else is sent on the channel")
    for x in st.packets():
        cx.check(x[1] == 5, "nothing is sent on another channel")
    cx.check(not st.crashes(), "the thread of the connection does not fail")
    cx.reach("broken" if p.broken else "ended")


def up(cx, count, where, how, fail, closing):
    """Data from the server at any time of the connection's life, with failing writes."""
    st = Stack(cx)
    sent = []
    todo = [count]
    closed = []
    where = list(where)

    def maybe(place):
        if place in where and todo[0] > 0 and not closed and cx.fault("data " + place):
            todo[0] -= 1
            d = cx.bytes("u", 10, 99)
            sent.append(d)
            if place == "before":
                st.deliver(binary(ROUTE, 5, d))
            else:
                st.interfere(binary(ROUTE, 5, d))
            return True
        if closing and not closed and cx.fault("close " + place):
            closed.append(1)
            if place == "before":
                st.close(5)
            else:
                st.interfere(binary(NOTIFY_CLOSE, 5))
        return False

    steps = [0]

    def step():
        maybe("poll")
        steps[0] += 1
        if steps[0] > 1:
            n.peers[0].inp.closed = True

    writes = [0]
    bad = cx.choice("failing write", fail + 1) if fail else 0
    gap = []

    def on_send(peer, data):
        writes[0] += 1
        if writes[0] == bad:
            k = cx.int("written", 0, 99)
            cx.assume(k < len(data))
            peer.received = peer.received + data[:k]
            gap.append(1)
            e = cx.pick("error", [net._socket.timeout("timed out"), fsenv.err(errno.EPIPE)])
            raise e

    n = Net(cx, step)
    n.on_connect = lambda sock, addr: maybe("connect")
    n.on_recv = lambda p: maybe("recv")
    n.on_send = on_send
    open_forward(cx, st, 5, how)
    while maybe("before"):
        pass
    st.run()
    if "after" in where:
        while todo[0] > 0:
            todo[0] -= 1
            d = cx.bytes("u", 10, 99)
            if not closed:
                sent.append(d)
            st.deliver(binary(ROUTE, 5, d))
    cx.check(len(n.peers) == 1, "one connection is made")
    p = n.peers[0]
    cx.observe(len(sent), len(closed), len(gap))
    if gap:
        cx.check(total(sent).startswith(p.received), "after a failed write nothing is written past the gap")
        cx.reach("gap")
    else:
        cx.check(p.received == total(sent),
                 "every byte of the server is written to the local connection once and in order")
        cx.reach("closed" if closed else "whole")


def backlog(cx, count, late):
    """Many pieces from the server before the connection is made, more afterwards."""
    st = Stack(cx)
    sent = []

    def more(k):
        for _ in range(k):
            d = cx.cells("u", 2)
            sent.append(d)
            yield binary(ROUTE, 5, d)

    steps = [0]

    def step():
        steps[0] += 1
        if steps[0] == 1:
            st.interfere(*more(late))
        else:
            n.peers[0].inp.closed = True

    n = Net(cx, step)
    open_forward(cx, st, 5, "redirect")
    st.deliver(*more(count))
    st.run()
    p = n.peers[0]
    cx.check(p.received == total(sent), "every byte of the server is written to the local connection once and in order")
    cx.reach("backlog")


def lasting(cx, quiet, pieces, size, how):
    """A connection that is quiet for a very long time between its pieces, or relays very much, both ways."""
    st = Stack(cx)
    polls = [0]
    sent, given = [], []
    left = [pieces]

    def step():
        polls[0] += 1
        if polls[0] % (quiet + 1) == 0:
            p = n.peers[0]
            if left[0] > 0:
                left[0] -= 1
                d = cx.cells("d", 2) + b"d" * size
                u = cx.cells("u", 2) + b"u" * size
                given.append(d)
                p.inp.put(d)
                sent.append(u)
                st.interfere(binary(ROUTE, 5, u))
            else:
                p.inp.closed = True

    n = Net(cx, step)
    n.world.over = lambda: bool(n.peers) and n.peers[0].ended()
    open_forward(cx, st, 5, how)
    st.run()
    p = n.peers[0]
    data, control, closes = st.sent_on(5)
    cx.check(left[0] == 0, "the connection is relayed for as long as it lasts")
    cx.check(total(data) == total(given), "every byte of the local server is sent on the channel once and in order")
    cx.check(p.received == total(sent), "every byte of the server is written to the local connection once and in order")
    cx.check(closes == 1 and not control, "nothing else is sent on the channel")
    cx.reach("lasting")


def race(cx, preemptions, close):
    """Data and the channel's close arrive while the connection is being established, in every interleaving."""
    st = Stack(cx)
    s = sched.Sched(cx, 0)
    n = Net(cx)
    done = []

    def poll(p, timeout):
        s.block(lambda: bool(done))
        n.peers[0].inp.closed = True
        return [(fd, IN) for fd in p.registered]

    cx.st["poll"] = poll
    writing = []

    def on_send(peer, data):
        cx.check(not writing, "two threads write to the local connection at the same time")
        writing.append(1)
        s.yield_point()
        writing.pop()

    n.on_send = on_send
    n.on_connect = lambda sock, addr: s.yield_point()
    s.budget = preemptions
    open_forward(cx, st, 5, "redirect")
    s.yield_point()
    st.deliver(binary(ROUTE, 5, b"first,"))
    st.deliver(binary(ROUTE, 5, b"second"))
    if close:
        st.deliver(binary(NOTIFY_CLOSE, 5))
    done.append(1)
    cx.check(s.run_all(), "no thread waits for good")
    cx.check(not s.crashes and not st.crashes(), "no thread fails")
    p = n.peers[0]

    cx.check(p.received == b"first,second", "every byte of the server is written once and in order")
    if close:
        cx.check(p.sock.shut_wr, "the local connection is shut down for writing when the channel closes")
    cx.reach("race")


def plan(tier):
    t = tier == "thorough"
    moves = ["data", "eof", "reset", "idle", "data eof", "data reset"]
    return {
        "bounds": "every history of %d steps of the local server (sending 10 to 99 bytes of any content, ending or "
                  "resetting its stream, with data pending or not, staying silent); one or two pieces of any size up "
                  "to %d bytes; %d pieces from the server arriving before, during and after the connection is made, "
                  "during polls and receives (and %d pieces before it), with the %d-th write failing after any part; 1200 pieces each way, 1200 quiet polls, pieces of 5 MB; two pieces and the close "
                  "of the channel against the connecting thread with %d preemptions at every line of portforward.py"
                  % (5 if t else 4, 2200000 if t else 1100000, 4 if t else 3, 3000 if t else 1200, 4 if t else 3, 4 if t else 3),
        "outside": "longer histories; more preemptions; urgent data",
        "assumptions": ["poll is level triggered: POLLIN while bytes or the end of the stream are pending, POLLERR and "
                        "POLLHUP after a reset; bytes received before a reset can still be read",
                        "sendall writes everything or raises after writing some part"],
        "jobs": [
            {"fn": "down", "cases": [{"steps": 5 if t else 4, "moves": moves, "how": "redirect"},
                                     {"steps": 3, "moves": moves, "how": "service"},
                                     {"steps": 2 if t else 1, "moves": ["data", "data eof", "data reset"], "how": "redirect",
                                      "sizes": (1, 2200000 if t else 1100000)}],
             "reach": ["ended", "broken"], "hang": True, "max_steps": 3000, "weight": 2},
            {"fn": "up", "cases": [
                {"count": 4 if t else 3, "where": ["before", "connect", "poll", "recv", "after"], "how": "redirect",
                 "fail": 0, "closing": False},
                {"count": 3, "where": ["before", "connect", "after"], "how": "service", "fail": 0,
                 "closing": False},
                {"count": 3, "where": ["before", "connect", "poll", "after"], "how": "redirect", "fail": 4 if t else 3,
                 "closing": False},
                {"count": 2, "where": ["before", "connect", "poll"], "how": "redirect", "fail": 0, "closing": True}],
             "hang": True, "max_steps": 3000, "weight": 2},
            {"fn": "backlog", "cases": [{"count": 3000 if t else 1200, "late": 20}], "reach": ["backlog"], "hang": True,
             "max_steps": 100000},
            {"fn": "lasting", "cases": [{"quiet": 1200, "pieces": 1, "size": 4, "how": "service"},
                                        {"quiet": 0, "pieces": 1200, "size": 4, "how": "redirect"},
                                        {"quiet": 0, "pieces": 2, "size": 5000000, "how": "redirect"},
                                        {"quiet": 1, "pieces": 40, "size": 100000, "how": "service"}],
             "reach": ["lasting"], "hang": True, "max_steps": 4000000},
            {"fn": "race", "cases": [{"preemptions": 4 if t else 3, "close": False},
                                     {"preemptions": 4 if t else 3, "close": True}],
             "yields": ["dataplicity.portforward"], "reach": ["race"], "weight": 3},
        ]}
