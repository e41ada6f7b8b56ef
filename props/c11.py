"""C11: service slots never leak and refused services are reported."""
import errno
from props.stack import *
from sxenv import fs as fsenv

P_KINDS = ["file", "command", "forward", "redirect", "terminal"]


def request(st, kind, chan):
    """Ask for a service; how many threads does it start?"""
    if kind == "file":
        return st.start(action=b"read-file", port=chan, path=b"/data/file")
    if kind == "command":
        return st.start(action=b"run-command", port=chan, command=b"true")
    if kind == "forward":
        return st.start(action=b"open-portforward", service=b"ext", route=[b"a", 1, b"b", chan])
    if kind == "redirect":
        return st.start(action=b"open-portredirect", m2m_port=chan, device_port=22)
    return st.start(action=b"open-terminal", port=chan, name=b"shell")


class World(object):
    """Everything the services touch; `op` is called at every operation of the environment."""

    def __init__(self, cx, st):
        self.cx, self.st = cx, st
        self.ops = 0
        self.on_op = None
        f = self.fs = fsenv.fs()
        f.put("/data/file", b"content")
        f.hook = lambda op, path, node: self.op(op)
        self.cmd = Command(cx, ["out exit"], 1)
        self.net = Net(cx)
        self.pty = Pty(cx)
        self.pty.on_fork = lambda: self.op("fork")
        self.pty.on_read = lambda t: self.op("read")
        self.pty.on_ioctl = lambda *a: self.op("ioctl")
        self.net.create = lambda sock: self.op("socket")
        self.net.on_connect = lambda s, a: self.op("connect")
        self.net.on_recv = lambda p: self.op("recv")

        self.wire()
        cx.st["ws_send"] = lambda ws, data: self.op("send")
        cx.st["waitpid"] = lambda pid, o: (pid, 0)

    def wire(self):
        cx = self.cx
        cmd_popen, cmd_poll = cx.st["popen"], self.cmd.world
        self.cmd.on_read = lambda s: self.op("read")

        def popen(p, a, kw):
            self.op("popen")
            cmd_popen(p, a, kw)

        def poll(p, timeout):
            self.op("poll")
            fds = list(p.registered)
            for t in self.pty.terms:
                if t.fd in fds:
                    if not t.out.closed:
                        t.out.put(b"$ ")
                        t.out.closed = True
                    return [(t.fd, t.mask())]
            for pr in self.net.peers:
                if pr.sock.fd in fds:
                    if not pr.inp.closed:
                        pr.inp.put(b"hello")
                        pr.inp.closed = True
                    return [(pr.sock.fd, pr.mask())]
            return cmd_poll.poll(p, timeout)

        cx.st["popen"] = popen
        cx.st["poll"] = poll

    def op(self, what):
        self.ops += 1
        if self.on_op is not None:
            self.on_op(what)

    def worked(self):
        """Anything done for a service?"""
        return (self.fs.trace or sysrec(self.cx, "popen") or sysrec(self.cx, "fork") or self.net.connects or
                sysrec(self.cx, "socket"))


def ends(cx, kind, upto, closing=False, probe=False):
    """A service whose k-th operation fails in some way (or whose channel closes there)."""
    st = Stack(cx)
    w = World(cx, st)
    k = cx.choice("operation", upto) + 1
    hit = []
    then = cx.choice("slots looked at", 4) + 1 if closing else 0
    how = None if probe else cx.pick("way", ["closed"] if closing else ["oserror", "other", "everything"])

    def on_op(what):
        if how == "everything":
            if w.ops >= k:
                hit.append(what)
                raise RuntimeError("x")
        elif hit and closing and what != "send":
            hit.append(what)
            if len(hit) == then:
                n = threads.as_task(99, st.free_services)
                m = threads.as_task(99, st.free_terminals)
                cx.check(n == (SERVICES - 1 if kind == "terminal" else SERVICES - 2) and
                         m == (TERMINALS - 2 if kind == "terminal" else TERMINALS - 1),
                         "a service that is still at work after its channel closed holds its slot")
        elif w.ops >= k and not hit and not (probe and what == "send"):
            hit.append(what)
            if probe:
                n = threads.as_task(99, st.free_services)
                m = threads.as_task(99, st.free_terminals)
                if kind == "terminal":
                    cx.check(n == SERVICES - 1, "a terminal does not use a service slot")
                    cx.check(m == TERMINALS - 2, "a running terminal holds exactly one terminal slot")
                else:
                    cx.check(m == TERMINALS - 1, "a service does not use a terminal slot")
                    cx.check(n == SERVICES - 2, "a running service holds exactly one service slot")
            elif how == "closed":
                st.interfere(binary(NOTIFY_CLOSE, 7))
            elif what == "send":
                raise wire.WebSocketUnavailable("x") if how == "oserror" else RuntimeError("x")
            else:
                raise fsenv.err(errno.EIO) if how == "oserror" else RuntimeError("x")

    # another service and another terminal hold a slot all the time
    for other, port in (("file", 50), ("terminal", 51)):
        cx.check(request(st, other, port) == 1, "a request is admitted while slots are free")
        cx.st["queue"].remove(cx.st["started"][-1])
    w.on_op = on_op
    cx.check(request(st, kind, 7) == 1, "a request is admitted while slots are free")
    st.run()
    w.on_op = None
    cx.observe(hit, w.ops)
    if not hit:
        cx.reach("no fault")
        return
    cx.check(st.free_services() == SERVICES - 1, "the slot of a service is given back exactly once")
    cx.check(st.free_terminals() == TERMINALS - 1, "the slot of a terminal is given back exactly once")
    cx.reach("probed" if probe else ("closed" if closing else "failed"))


def early(cx, kind, how):
    """A service whose channel closes (or the connection is lost) before its thread does anything."""
    st = Stack(cx)
    w = World(cx, st)
    cx.check(request(st, kind, 7) == 1, "a request is admitted while slots are free")
    st.interfere(binary(NOTIFY_CLOSE, 7) if how == "close" else event("disconnected"))
    if how == "close" and cx.fault("disconnected too"):
        st.interfere(event("disconnected"))
    st.run()
    cx.check(st.free_services() == SERVICES, "the slot of a service is given back exactly once")
    cx.check(st.free_terminals() == TERMINALS, "the slot of a terminal is given back exactly once")
    cx.reach("early")


def refused(cx, kind, why):
    """A request that finds its pool full, or whose thread cannot be started."""
    st = Stack(cx)
    w = World(cx, st)
    if why == "full":
        if kind == "terminal":
            for i in range(TERMINALS):
                cx.check(request(st, "terminal", 100 + i) == 1, "a terminal is admitted while slots are free")
        else:
            others = ["file", "command", "forward", "redirect"]
            for i in range(SERVICES):
                cx.check(request(st, cx.pick("other", others) if i == 0 else others[i], 100 + i) == 1,
                         "a service is admitted while slots are free")
    else:
        cx.st["thread_fault"] = lambda t: True
    if cx.choice("data before", 2):
        # the client already sent something on the channel
        st.deliver(binary(ROUTE, 7, b"GET /"), binary(ROUTE_CTRL, 7, b"{}"))
    since = len(st.ws.sent)
    n = request(st, kind, 7)
    cx.st["thread_fault"] = None
    cx.check(n == 0, "a refused request starts nothing")
    cx.check(not w.worked(), "a refused request does no work")
    data, control, closes = st.sent_on(7, since)
    cx.observe(len(data), len(control), closes)
    cx.check(len(data) + len(control) >= 1, "the client is told of the refusal on the channel")
    for x in data:
        cx.check(len(x) > 0, "the notice is not empty")
    cx.check(closes == 1 and st.packets(since)[-1] == [REQ_CLOSE, 7], "the channel is asked to close")
    for p in st.packets(since):
        cx.check(p[1] == 7, "nothing is sent on another channel")
    full = why == "full"
    if kind == "terminal":
        cx.check(st.free_terminals() == (0 if full else TERMINALS), "a refused request takes no slot and frees none")
        cx.check(st.free_services() == SERVICES, "a refused terminal changes nothing about services")
    else:
        cx.check(st.free_services() == (0 if full else SERVICES), "a refused request takes no slot and frees none")
        cx.check(st.free_terminals() == TERMINALS, "a refused service changes nothing about terminals")
    cx.reach("refused")


def odd(cx, what):
    """A service that ends for a reason of its own."""
    st = Stack(cx)
    w = World(cx, st)
    if what == "terminal":
        st.manager.add_terminal("odd", cx.pick("command", ["bash '-i", "bash \"", "bash \\", ""]))
        fsenv.environ.pop("SHELL", None)
        n = st.start(action=b"open-terminal", port=7, name=b"odd")
    elif what == "command":
        n = st.start(action=b"run-command", port=7, command=cx.pick("command", [b"", b"a\x00b", b"'", 5]))
    elif what == "file":
        n = st.start(action=b"read-file", port=7, path=cx.pick("path", [b"", b"a\x00b", b"/", b"/data", 5]))
    else:
        n = st.start(action=b"open-portredirect", m2m_port=7, device_port=cx.pick("port", [-1, 70000, b"ssh", [], 0]))
    cx.check(n == 1, "a request is admitted while slots are free")
    st.run()
    cx.check(st.free_services() == SERVICES, "the slot of a service is given back exactly once")
    cx.check(st.free_terminals() == TERMINALS, "the slot of a terminal is given back exactly once")
    cx.reach("odd")


def lasting(cx, rounds, kind, how):
    """Service after service in one life of the agent, each ending well, failing, or refused."""
    st = Stack(cx)
    w = World(cx, st)
    bad = [False]

    def on_op(what):
        if bad[0] and what != "send":
            raise fsenv.err(errno.EIO)

    w.on_op = on_op
    for i in range(rounds):
        bad[0] = how == "fails" or how == "mixed" and i % 3 == 1
        refuse = how == "thread" or how == "mixed" and i % 3 == 2
        cx.st["thread_fault"] = (lambda t: True) if refuse else None
        k = kind if kind != "all" else P_KINDS[i % len(P_KINDS)]
        w.cmd.__init__(cx, ["out exit"], 1, (3, 3))
        w.wire()
        n = request(st, k, 10 + i)
        cx.st["thread_fault"] = None
        cx.check(n == (0 if refuse else 1), "a request is admitted exactly while its pool has a free slot")
        st.run()
    w.on_op = None
    cx.check(st.free_services() == SERVICES, "the slot of a service is given back exactly once")
    cx.check(st.free_terminals() == TERMINALS, "the slot of a terminal is given back exactly once")
    cx.reach("lasting")


def history(cx, steps, kinds):
    """Requests and completions in any order: admitted exactly while its pool has a free slot."""
    st = Stack(cx)
    w = World(cx, st)
    live = {"s": [], "t": []}
    limit = {"s": SERVICES, "t": TERMINALS}
    for i in range(steps):
        act = cx.pick("act", kinds + ["end s", "end t"])
        if act.startswith("end"):
            pool = live[act[-1]]
            if pool:
                t = pool.pop(cx.choice("which", len(pool)) if len(pool) > 1 else 0)
                cx.st["queue"].remove(t)
                t._bootstrap()
            continue
        pool = "t" if act == "terminal" else "s"
        bad = cx.fault("thread cannot start")
        cx.st["thread_fault"] = (lambda t: True) if bad else None
        n = request(st, act, 10 + i)
        cx.st["thread_fault"] = None
        want = 1 if not bad and len(live[pool]) < limit[pool] else 0
        cx.check(n == want, "a request is admitted exactly while its pool has a free slot")
        if n:
            live[pool].append(cx.st["started"][-1])
        else:
            cx.reach("refused")
    cx.observe(len(live["s"]), len(live["t"]))
    cx.check(st.free_services() == SERVICES - len(live["s"]), "exactly the live services hold slots")
    cx.check(st.free_terminals() == TERMINALS - len(live["t"]), "exactly the live terminals hold slots")
    cx.reach("history")


def plan(tier):
    t = tier == "thorough"
    return {
        "bounds": ("each kind of service run to its end with any one of its first %d environment operations (socket, "
                  "connect, open, read, fork, poll, ioctl, popen, send) failing with an I/O error, a transport error or "
                  "another exception, all operations failing from there on, or the channel closing there or before the first one; slots probed at each of these operations; each "
                  "kind refused because its pool is full (of any first kind) or its thread cannot start; every "
                  "history of %d requests and completions; limits of 3 services and 2 terminals" % (
                      14 if t else 10, 5 if t else 4)) +
                  "; unusable paths, commands and ports; lives of dozens of services of each kind, ending well, failing or refused",
        "outside": "other combinations of failures in one service; other limits; failures of lock operations; SystemExit or "
                   "KeyboardInterrupt inside a service thread",
        "assumptions": ["a thread that cannot be started raises RuntimeError from start()"],
        "jobs": [
            {"fn": "ends", "cases": [{"kind": k, "upto": 14 if t else 10} for k in P_KINDS] +
                                    [{"kind": k, "upto": 14 if t else 10, "closing": True} for k in P_KINDS] +
                                    [{"kind": k, "upto": 10 if t else 6, "probe": True} for k in P_KINDS],
             "hang": True, "max_steps": 3000},
            {"fn": "refused", "cases": [{"kind": k, "why": y} for k in P_KINDS for y in ("full", "thread")],
             "reach": ["refused"]},
            {"fn": "odd", "cases": [{"what": k} for k in ("terminal", "command", "file", "redirect")], "reach": ["odd"],
             "hang": True, "max_steps": 3000},
            {"fn": "early", "cases": [{"kind": k, "how": h} for k in P_KINDS for h in ("close", "drop")], "reach": ["early"],
             "hang": True, "max_steps": 3000},
            {"fn": "lasting", "cases": [{"rounds": 300 if t else 60, "kind": k, "how": h} for k, h in
                                        [(k, "well") for k in P_KINDS] + [(k, "fails") for k in P_KINDS] +
                                        [("all", "thread"), ("all", "mixed")]],
             "reach": ["lasting"], "hang": True, "max_steps": 4000000},
            {"fn": "history", "cases": [{"steps": 5 if t else 4, "kinds": ["file", "terminal"]},
                                        {"steps": 4 if t else 3, "kinds": ["command", "forward", "redirect"]}],
             "reach": ["history"], "hang": True, "max_steps": 4000, "weight": 3},
        ]}
