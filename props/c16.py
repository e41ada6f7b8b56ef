"""C16: forwarded connections end cleanly and independently."""
import errno
from props.stack import *
from sxenv import fs as fsenv

P_ENDS = ["eof", "data eof", "reset", "data reset", "refused", "timeout", "odd failure", "nameless", "no socket", "poll fails",
          "recv fails", "recv times out", "poll keeps failing", "closed", "closed busy", "closed before", "closed connecting", "write fails"]


class Life(object):
    """How one connection ends."""

    def __init__(self, cx, st, n, chan, how, when=0):
        self.cx, self.st, self.n, self.chan, self.how, self.when = cx, st, n, chan, how, when
        self.closed = False
        self.steps = 0
        self.peer = None
        self.idle = 0

    def open(self, service):
        if service:
            self.st.instruct(action=b"open-portforward", service=b"web", route=[b"a", 1, b"b", self.chan])
        else:
            self.st.instruct(action=b"open-portredirect", m2m_port=self.chan, device_port=8080)
        if self.how == "closed before":
            self.close()

    def close(self):
        self.closed = True
        self.st.interfere(binary(NOTIFY_CLOSE, self.chan))

    def create(self):
        if self.how == "no socket":
            raise fsenv.err(errno.EMFILE)

    def connect(self, sock):
        if self.how == "refused":
            raise OSError(self.cx.int("errno", 1, 133), "refused")
        if self.how == "nameless":
            raise OSError("no number given")
        if self.how == "timeout":
            raise net._socket.timeout("timed out")
        if self.how == "odd failure":
            raise ValueError("x")
        if self.how == "closed connecting":
            self.close()

    def connected(self, peer):
        self.peer = peer

    def step(self):
        """one poll of this connection's thread"""
        cx, p = self.cx, self.peer
        self.steps += 1
        if self.steps <= self.when:
            return
        first = self.steps == self.when + 1
        if self.how in ("eof", "data eof"):
            if first and "data" in self.how:
                p.inp.put(b"tail")
            p.inp.closed = True
        elif self.how in ("reset", "data reset"):
            if first and "data" in self.how:
                p.inp.put(b"tail")
            p.broken = True
        elif self.how == "poll fails":
            if first:
                raise fsenv.err(errno.EINVAL)
        elif self.how == "poll keeps failing":
            if not first:
                self.idle += 1
                cx.check(self.idle <= 4, "the thread of a connection that has ended stops")
            raise fsenv.err(errno.EINVAL)
        elif self.how in ("recv fails", "recv times out"):
            if first:
                p.inp.put(b"x")
        elif self.how == "closed busy":
            if first:
                self.close()
            p.inp.put(b"more")
        elif self.how == "closed":
            if first:
                self.close()
        elif self.how == "write fails":
            if first:
                self.st.interfere(binary(ROUTE, self.chan, b"up"))
            p.inp.closed = True
        if not first:
            self.idle += 1
            cx.check(self.idle <= 4, "the thread of a connection that has ended stops")

    def recv(self, p):
        if self.how == "recv fails":
            raise fsenv.err(errno.EIO)
        if self.how == "recv times out":
            raise net._socket.timeout("timed out")

    def send(self, p, data):
        if self.how == "write fails":
            raise fsenv.err(errno.EPIPE)

    def judge(self):
        cx, st, p = self.cx, self.st, self.peer
        data, control, closes = st.sent_on(self.chan)
        if self.closed:
            cx.check(closes <= 1 and (closes == 0 or self.how not in ("closed before",)),
                     "nothing is sent on a closed channel")
        else:
            cx.check(closes == 1, "the channel of a connection that has ended is asked to close once")
        if self.how in ("refused", "timeout", "odd failure", "nameless", "no socket"):
            cx.check(p is None and not data, "no data is made up")
            return
        if p is not None:
            if self.closed:
                cx.check(p.sock.shut_wr or p.sock.closed,
                         "the local connection is shut down for writing when the channel closes")
            else:
                cx.check(p.sock.shut_rd or p.sock.closed, "the local connection is shut down for reading at its end")
            if "data" in self.how and not self.closed:
                cx.check(data == [b"tail"], "what the local server sent is relayed")


class Lives(Net):
    """Several connections, each with its own life; connections are told apart by their order."""

    def __init__(self, cx, st):
        Net.__init__(self, cx, None)
        self.st = st
        self.lives = []             # in the order their threads run
        self.threads = {}
        self.bysock = {}
        cx.st["poll"] = self.poll_

    def life(self):
        return self.threads[threads.current()]

    def create(self, sock):
        self.life().create()

    def connect(self, sock, addr):
        life = self.life()
        self.connects.append(addr)
        life.connect(sock)
        p = Peer(self.cx, sock)
        sock.peer = p
        p.life = life
        self.peers.append(p)
        self.world.sources[sock.fd] = p.mask
        life.connected(p)

    def recv(self, sock, n):
        sock.peer.life.recv(sock.peer)
        return Net.recv(self, sock, n)

    def sendall(self, sock, data):
        sock.peer.life.send(sock.peer, data)
        Net.sendall(self, sock, data)

    def poll_(self, p, timeout):
        life = self.life()
        life.step()
        return self.world.poll(p, timeout)


def start(cx, n, life, service):
    """Open it and remember which thread is its."""
    k = len(cx.st["started"])
    life.open(service)
    new = cx.st["started"][k:]
    cx.check(len(new) == 1, "each request below the limit starts one connection")
    n.threads[new[0].ident] = life


def ends(cx, how, clock):
    """One connection, ending in every way, at any clock readings."""
    st = Stack(cx, past=7)
    n = Lives(cx, st)
    cx.st["clock"] = clock
    life = Life(cx, st, n, 7, how, cx.choice("quiet polls", 2))
    start(cx, n, life, cx.fault("by service"))
    st.run()
    life.judge()
    for p in st.packets():
        cx.check(p[1] == 7, "nothing is sent on another channel")
    cx.reach("end")


def independent(cx, how):
    """One connection ends in every way while another is live, before a third is opened."""
    st = Stack(cx)
    n = Lives(cx, st)
    when = cx.choice("quiet polls", 2)
    bad = Life(cx, st, n, 7, how, when)
    a = cx.bytes("a", 10, 99)
    b = cx.bytes("b", 10, 99)
    u = cx.bytes("u", 10, 99)
    good = Good(cx, st, n, 8, a, b, u)
    first = cx.fault("the failing one is opened first")
    svc = cx.fault("by service")
    if first:
        start(cx, n, bad, svc)
        start(cx, n, good, svc)
        cx.st["queue"].reverse()        # its thread runs inside the live one's
    else:
        start(cx, n, good, svc)
        start(cx, n, bad, svc)
    st.run()
    bad.judge()
    good.judge()
    late = Good(cx, st, n, 9, b, a, u)
    start(cx, n, late, svc)
    st.run()
    late.judge()
    cx.check(st.free_services() == SERVICES, "ended connections do not keep later ones from being opened")
    cx.reach("independent")


class Good(Life):
    """A connection that lives through the end of another."""

    def __init__(self, cx, st, n, chan, a, b, u):
        Life.__init__(self, cx, st, n, chan, "good")
        self.a, self.b, self.u = a, b, u

    def step(self):
        self.steps += 1
        p = self.peer
        if self.steps == 1:
            p.inp.put(self.a)
            threads.run_threads()       # the other connection lives and ends now
        elif self.steps == 2:
            self.cx.check(len(p.inp.pending) == 0, "a live connection goes on relaying")
            self.st.interfere(binary(ROUTE, self.chan, self.u))
            p.inp.put(self.b)
        elif self.steps > 2:
            p.inp.closed = True
        self.cx.check(self.steps < 9, "the thread of a connection that has ended stops")

    def judge(self, since=0):
        cx = self.cx
        data, control, closes = self.st.sent_on(self.chan, since)
        got = b""
        for d in data:
            got = got + d
        cx.check(got == self.a + self.b, "another connection's end does not disturb what this one relays")
        cx.check(self.peer is not None and self.peer.received == self.u,
                 "another connection's end does not disturb what this one relays")
        cx.check(closes == 1, "the channel of a connection that has ended is asked to close once")
        cx.check(self.peer.inp.closed, "a live connection is not ended by another's end")


def many(cx, count):
    """Very many connections one after the other, ending in different ways: the last works like the first."""
    st = Stack(cx)
    n = Lives(cx, st)
    u = cx.bytes("u", 10, 99)
    ways = ["eof", "refused", "data reset", "closed", "no socket", "recv fails", "poll fails", "write fails",
            "closed before"]
    for k in range(count):
        life = Life(cx, st, n, 100 + k, ways[k % len(ways)], k % 3)
        start(cx, n, life, k % 2 == 0)
        st.run()
    life = Good(cx, st, n, 7, u, b"b", u)
    start(cx, n, life, cx.fault("by service"))
    st.run()
    life.judge()
    cx.check(st.free_services() == SERVICES, "ended connections do not keep later ones from being opened")
    cx.reach("many")


def quiet(cx, polls):
    """A connection that is quiet for a very long time goes on; it ends when its channel closes."""
    st = Stack(cx)
    n = Lives(cx, st)
    life = Life(cx, st, n, 7, cx.pick("end", ["closed", "data eof", "data reset"]), polls)
    start(cx, n, life, cx.fault("by service"))
    st.run()
    cx.check(life.steps > polls, "a quiet connection is not ended")
    life.judge()
    cx.reach("quiet")


def drop(cx):
    """The connection to the server drops with connections open: all of them end."""
    st = Stack(cx)
    n = Lives(cx, st)
    lives = [Life(cx, st, n, 7, "dropped"), Life(cx, st, n, 8, "dropped")]
    for l in lives:
        start(cx, n, l, False)
    k = [0]

    def poll(p, timeout):
        k[0] += 1
        cx.check(k[0] <= 6, "the threads of the forwarded connections stop when the connection drops")
        if k[0] == 1:
            st.interfere(event("disconnected"))
        return []

    cx.st["poll"] = poll
    st.run()
    for p in n.peers:
        cx.check(p.sock.shut_wr, "the local connection is shut down for writing when the channel closes")
    cx.check(len(n.peers) == 2, "both connections were made")
    st.deliver(event("ready"), binary(SET_ID, b"2" * 32))
    cx.st["poll"] = n.poll_
    u = cx.bytes("u", 10, 99)
    # after the server connection is back, channel numbers are given out again
    life = Good(cx, st, n, cx.pick("channel", [7, 9]), u, b"b", u)
    since = len(st.ws.sent)
    start(cx, n, life, cx.fault("by service"))
    st.run()
    life.judge(since)
    cx.check(st.free_services() == SERVICES, "ended connections do not keep later ones from being opened")
    cx.reach("drop")


def plan(tier):
    t = tier == "thorough"
    clocks = ["frozen", "free"]
    return {
        "bounds": "one connection ending in each of %d ways after up to one quiet poll, with arbitrary clock readings; "
                  "the same beside a live connection relaying any data both ways, followed by a third; opened by "
                  "service or by redirect; a dropped server connection with two forwards, and a forward after it is back; %d connections one "
                  "after the other; 1200 quiet polls" % (len(P_ENDS), 3000 if t else 1100),
        "outside": "more than three connections; several ends at once",
        "assumptions": ["a thread's poll returns at least every 5 s, as its timeout says"],
        "jobs": [
            {"fn": "ends", "cases": [{"how": h, "clock": c} for h in P_ENDS for c in clocks], "reach": ["end"],
             "hang": True, "max_steps": 3000},
            {"fn": "independent", "cases": [{"how": h} for h in P_ENDS], "reach": ["independent"], "hang": True,
             "max_steps": 3000},
            {"fn": "many", "cases": [{"count": 3000 if t else 1100}], "reach": ["many"], "hang": True,
             "max_steps": 4000000, "weight": 2},
            {"fn": "quiet", "cases": [{"polls": 1200}], "reach": ["quiet"], "hang": True, "max_steps": 4000000},
            {"fn": "drop", "reach": ["drop"], "hang": True, "max_steps": 3000},
        ]}
