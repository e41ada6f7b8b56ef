"""The whole m2m stack of the agent (real client, manager, services, port forwarding), driven over its websocket,
and the worlds its services run in (commands, sockets, terminals)."""
import errno
import select
import struct
from sx import rt
from sxenv import net, fs as fsenv, threads
from sxenv.lib import And, Not, caught, same_value, Fake
from props.common import *
from dataplicity.m2mmanager import M2MManager
from dataplicity.portforward import PortForwardManager
from dataplicity.m2m import bencode
from dataplicity import constants

SERVICES = 3        # the limits the environment of these worlds sets (sxenv.fs.Environ)
TERMINALS = 2

IN, ERR, HUP = select.POLLIN, select.POLLERR, select.POLLHUP


class AgentClient(Fake):
    """The agent the manager belongs to."""

    def __init__(self):
        self.calls = []
        self.directory_scanner = Scanner(self.calls)

    def sync(self):
        self.calls.append(("sync",))

    def exit(self):
        self.calls.append(("exit",))

    def set_m2m_identity(self, identity):
        self.calls.append(("identity", identity))
        return identity


class Scanner(Fake):
    def __init__(self, calls):
        self.calls = calls

    def perform_scan(self, *a, **kw):
        self.calls.append(("scan",))


P_PASTS = ["none", "reconnected", "failed", "garbage"]


class Stack(object):
    def __init__(self, cx, remote=None, past=None):
        """`past`: a channel number; what happened before may be anything of a few things on it."""
        self.cx = cx
        self.base = 0
        cx.st["events"] = []
        self.client = AgentClient()
        self.client.port_forward = PortForwardManager.init(self.client)
        self.manager = M2MManager.init(self.client, remote or RemoteDir(), "wss://example.org/m2m/")
        self.client.m2m = self.manager
        self.m2m = self.manager.m2m_client
        self.ws = self.m2m.websocket
        cx.st["queue"] = []          # the receive thread is driven by deliver()
        cx.st["started"] = []
        if past is not None:
            self.live(cx.pick("past", P_PASTS), past)

    def live(self, past, chan):
        """A piece of the agent's life before what is looked at."""
        if past == "reconnected":
            self.reconnect()
        elif past == "failed":
            # a service on this channel that failed, and another that was refused
            self.instruct(action=b"read-file", port=chan, path=b"/not/there")
            self.run()
            self.close(chan)
            self.cx.st["thread_fault"] = lambda t: True
            self.instruct(action=b"read-file", port=chan, path=b"/not/there")
            self.instruct(action=b"open-terminal", port=chan, name=b"shell")
            self.cx.st["thread_fault"] = None
            self.close(chan)
        elif past == "garbage":
            self.deliver(binary(NOTIFY_OPEN, chan), binary(ROUTE, chan, b"old"), binary(ROUTE_CTRL, chan, b"old"),
                         binary(NOTIFY_CLOSE, chan), wire.WsEvent("binary", b"\xff"), binary(ROUTE, 5, 5),
                         binary(INSTRUCTION, b"sender", {b"action": b"none"}))
        self.base = len(self.ws.sent)
        self.cx.st["started"] = []

    # ------------------------------------------------------------ server side
    def deliver(self, *events):
        # the receive loop goes on after these events: nothing is to be done at its end
        outer = "on_close" in self.m2m.__dict__
        self.m2m.on_close = lambda *a, **kw: None
        drive(self.cx, self.m2m, iter(events))
        if not outer:
            del self.m2m.on_close
        self.ws.closed = False

    def reconnect(self):
        """The connection to the server is lost and made again."""
        self.deliver(event("disconnected"), event("ready"), binary(SET_ID, b"2" * 32))

    def interfere(self, *events):
        """Events arriving while the running thread is inside a system call."""
        threads.as_task(99, self.deliver, *events)

    def instruct(self, **kw):
        d = {}
        for k in kw:
            d[k.encode("ascii")] = kw[k]
        self.deliver(binary(INSTRUCTION, b"sender", d))

    def close(self, channel):
        self.deliver(binary(NOTIFY_CLOSE, channel))

    def packets(self, since=0):
        """The packets sent, as lists of fields."""
        out = []
        for m in self.ws.sent[since or self.base:]:
            p, e = caught(bencode.decode, m)
            self.cx.check(e is None and isinstance(p, list), "every message sent is a packet")
            out.append(p)
        return out

    def sent_on(self, channel, since=0):
        """(data chunks, control texts, close requests) sent on a channel"""
        data, control, closes = [], [], 0
        for p in self.packets(since):
            if p[0] == SEND and p[1] == channel:
                data.append(p[2])
            elif p[0] == SEND_CTRL and p[1] == channel:
                control.append(p[2])
            elif p[0] == REQ_CLOSE and p[1] == channel:
                closes += 1
        return data, control, closes

    # ------------------------------------------------------------ threads
    def queued(self):
        return list(self.cx.st.get("queue", []))

    def run(self):
        threads.run_threads()
        return self.crashes()

    def crashes(self):
        return self.cx.st.get("crashes", [])

    def start(self, **kw):
        """Issue an instruction; how many threads does it start?"""
        n = len(self.cx.st["started"])
        self.instruct(**kw)
        return len(self.cx.st["started"]) - n

    # ------------------------------------------------------------ slots
    def free_services(self, first=900):
        """How many service slots are free (they are used up by asking)."""
        n = 0
        while n <= SERVICES:
            if not self.start(action=b"read-file", port=first + n, path=b"/probe"):
                return n
            n += 1
        return n

    def free_terminals(self, first=950):
        n = 0
        while n <= TERMINALS:
            if not self.start(action=b"open-terminal", port=first + n, name=b"shell"):
                return n
            n += 1
        return n


def sysrec(cx, kind):
    return [x[1:] for x in cx.st.get("sys", []) if x[0] == kind]


# ---------------------------------------------------------------- a stream the operating system delivers
class Stream(object):
    """Bytes arriving at a descriptor: what is pending, whether it has ended; `total` is all that ever arrived."""

    def __init__(self, name):
        self.name = name
        self.pending = b""
        self.total = b""
        self.taken = b""
        self.closed = False
        self.extra_polls = 0

    def put(self, data):
        self.pending = self.pending + data
        self.total = self.total + data

    def take(self, n):
        r = self.pending[:n]
        self.pending = self.pending[len(r):]
        self.taken = self.taken + r
        return r


class PollWorld(object):
    """Drives the world one step at each poll; level triggered readiness.

    sources: descriptor -> function giving its event mask now."""

    def __init__(self, cx, step, limit=4):
        self.cx = cx
        self.step = step            # step(): lets the world move on
        self.sources = {}
        self.over = lambda: False   # everything that can happen has happened
        self.idle = 0
        self.limit = limit
        self.polls = 0
        self.what = "the work ends"
        cx.st["poll"] = self.poll

    def poll(self, p, timeout):
        cx = self.cx
        self.polls += 1
        self.step()
        out = []
        for fd in p.registered:
            f = self.sources.get(fd)
            if f is None:
                out.append((fd, select.POLLNVAL))
                continue
            m = f() & (p.registered[fd] | ERR | HUP)
            if m:
                out.append((fd, m))
        if self.over():
            self.idle += 1
            cx.check(self.idle <= self.limit, self.what)
        elif not out and timeout is None:
            cx.check(self.polls < 40, self.what)
        return out


# ---------------------------------------------------------------- commands
class Command(object):
    """One child process with its two output pipes."""

    def __init__(self, cx, moves, steps, sizes=(10, 99)):
        self.cx = cx
        self.sizes = sizes
        self.out = Stream("stdout")
        self.err = Stream("stderr")
        self.alive = True
        self.moves = moves
        self.steps = steps
        self.proc = None
        self.reads = 0
        self.world = PollWorld(cx, self.step)
        self.world.what = "the command service ends once the output has ended"
        self.world.over = lambda: self.out.closed and len(self.out.pending) == 0
        self.on_read = None
        cx.st["popen"] = self.popen
        cx.st["popen_poll"] = lambda p: None if self.alive else 0
        cx.st["popen_wait"] = self.wait

    def wait(self, p, timeout):
        # a wait for the process to end: it ends, sooner or later
        self.out.closed = True
        self.err.closed = True
        self.alive = False
        return 0

    def popen(self, p, args, kw):
        self.proc = p
        if kw.get("stdout") == -1:
            p.stdout = net.Pipe("stdout", read=lambda n: self.read(self.out, n))
            self.world.sources[p.stdout.fileno()] = lambda: self.mask(self.out)
        if kw.get("stderr") == -1:
            p.stderr = net.Pipe("stderr", read=lambda n: self.read(self.err, n))
            self.world.sources[p.stderr.fileno()] = lambda: self.mask(self.err)
        elif kw.get("stderr") == -2:
            self.err = self.out

    def mask(self, s):
        m = 0
        if len(s.pending) > 0:
            m |= IN
        if s.closed:
            m |= HUP
        return m

    def read(self, s, n):
        self.reads += 1
        if self.on_read is not None:
            self.on_read(s)
        if len(s.pending) == 0 and not s.closed:
            # a blocking read: the world goes on until there is something
            k = 0
            while len(s.pending) == 0 and not s.closed and k < 6:
                self.step()
                k += 1
        return s.take(n) if n >= 0 else s.take(len(s.pending))

    def step(self):
        cx = self.cx
        if self.steps <= 0:
            # the process ends at last
            self.out.closed = True
            self.err.closed = True
            return
        self.steps -= 1
        m = cx.pick("process", self.moves)
        if m == "out" and not self.out.closed:
            self.out.put(cx.bytes("out", *self.sizes))
        elif m == "err" and not self.err.closed:
            self.err.put(cx.bytes("err", *self.sizes))
        elif m == "close out":
            self.out.closed = True
        elif m == "close err":
            self.err.closed = True
        elif m == "exit":
            self.alive = False
            self.out.closed = True
            self.err.closed = True
        elif m == "leave":
            # the shell exits, a child of it keeps the pipes open
            self.alive = False
        elif m == "out exit":
            if not self.out.closed:
                self.out.put(cx.bytes("out", *self.sizes))
            self.alive = False
            self.out.closed = True
            self.err.closed = True


# ---------------------------------------------------------------- sockets
class Peer(object):
    """The local server's end of one forwarded connection."""

    def __init__(self, cx, sock):
        self.cx = cx
        self.sock = sock
        self.inp = Stream("from the local server")
        self.received = b""         # what the agent wrote
        self.broken = False         # reset by the local server
        self.reported = False
        self.gap = False

    def mask(self):
        m = 0
        if len(self.inp.pending) > 0 or self.inp.closed or self.broken:
            m |= IN
        if self.broken:
            m |= ERR | HUP
        elif self.inp.closed and self.sock.shut_wr:
            m |= HUP
        return m

    def ended(self):
        return (self.inp.closed or self.broken) and len(self.inp.pending) == 0


class Net(object):
    """The loopback network: hook object for the socket model, and the poll world over all sockets."""

    def __init__(self, cx, step=None, limit=4):
        self.cx = cx
        self.peers = []
        self.connects = []
        self.on_connect = None      # on_connect(sock, addr): may raise
        self.on_recv = None
        self.on_send = None         # on_send(peer, data): may raise
        self.on_step = step
        self.slow = 0
        self.world = PollWorld(cx, self._step, limit)
        self.world.what = "the thread of a forwarded connection ends once the connection has ended"
        self.world.over = lambda: False
        cx.st["net"] = self

    def _step(self):
        if self.on_step is not None:
            self.on_step()

    def connect(self, sock, addr):
        self.connects.append(addr)
        if self.on_connect is not None:
            self.on_connect(sock, addr)
        p = Peer(self.cx, sock)
        sock.peer = p
        self.peers.append(p)
        self.world.sources[sock.fd] = p.mask

    def recv(self, sock, n):
        p = sock.peer
        if self.on_recv is not None:
            self.on_recv(p)
        if len(p.inp.pending) > 0:
            return p.inp.take(n)
        if p.broken and not p.reported:
            p.reported = True
            raise fsenv.err(errno.ECONNRESET)
        if p.inp.closed or p.broken or sock.shut_rd:
            return b""
        raise net._socket.timeout("timed out")

    def sendall(self, sock, data):
        p = sock.peer
        if self.on_send is not None:
            self.on_send(p, data)
        p.received = p.received + data

    def send(self, sock, data):
        """A plain send takes as much as there is room for (all of it once the connection has been slow twice)."""
        p = sock.peer
        if self.on_send is not None:
            self.on_send(p, data)
        n = len(data)
        if self.slow < 2 and n > 1:
            self.slow += 1
            k = self.cx.int("taken", 1, 99)
            self.cx.assume(k <= n)
            p.received = p.received + data[:k]
            return k
        p.received = p.received + data
        return n


# ---------------------------------------------------------------- terminals
class Pty(object):
    """Pseudo terminals with one process each: level triggered, POLLHUP once the process side is closed, EIO when
    everything has been read after that."""

    def __init__(self, cx, step=None, limit=4):
        self.cx = cx
        self.step = step
        self.terms = []
        self.on_fork = None         # may raise
        self.on_read = None
        self.on_write = None        # on_write(term, data) -> how many bytes are taken
        self.on_ioctl = None
        self.on_close = None
        self.world = PollWorld(cx, self._step, limit)
        self.world.what = "the terminal's thread ends once the process has closed its side"
        self.world.over = lambda: bool(self.terms) and all(t.over() for t in self.terms)
        cx.st["fork"] = self.fork
        cx.st["ioctl"] = self.ioctl

    def _step(self):
        if self.step is not None:
            self.step()

    def fork(self):
        if self.on_fork is not None:
            self.on_fork()
        t = Term(self, 5000 + len(self.terms))
        self.terms.append(t)
        self.world.sources[t.fd] = t.mask
        return t.pid, t.fd

    def ioctl(self, fd, req, arg):
        if self.on_ioctl is not None:
            self.on_ioctl(fd, req, arg)
        for t in self.terms:
            if t.fd == fd:
                if t.pipe.closed:
                    raise fsenv.err(errno.EBADF)
                import termios
                if req == termios.TIOCSWINSZ:
                    t.sizes.append(struct.unpack("hhhh", arg) if isinstance(arg, (bytes, bytearray)) else tuple(arg))
                return 0
        raise fsenv.err(errno.EBADF)


class Term(object):
    def __init__(self, world, pid):
        self.w = world
        self.pid = pid
        self.out = Stream("output of the process")
        self.typed = b""
        self.sizes = []             # arrays given to TIOCSWINSZ
        self.short_reads = 0        # how many reads may return less than there is
        self.pipe = net.Pipe("pty", read=self.read, write=self.write)
        self.fd = self.pipe.fd

    def over(self):
        return self.out.closed and len(self.out.pending) == 0

    def mask(self):
        m = 0
        if len(self.out.pending) > 0:
            m |= IN
        if self.out.closed:
            m |= HUP
        return m

    def read(self, n):
        if self.w.on_read is not None:
            self.w.on_read(self)
        if len(self.out.pending) > 0:
            if self.short_reads > 0 and len(self.out.pending) > 1 and n > 1:
                self.short_reads -= 1
                k = self.w.cx.int("read", 1, 99)
                self.w.cx.assume(And(k <= len(self.out.pending), k <= n))
                n = k
            return self.out.take(n)
        if self.out.closed:
            raise fsenv.err(errno.EIO)
        self.w.cx.fail("a read of the terminal blocks for good")

    def write(self, data):
        if self.out.closed:
            raise fsenv.err(errno.EIO)
        n = len(data)
        if self.w.on_write is not None:
            n = self.w.on_write(self, data)
        self.typed = self.typed + data[:n]
        return n
