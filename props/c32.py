"""C32: each server instruction does exactly what it names."""
from props.stack import *
from sxenv.fs import fs

KINDS = ["sync", "open-terminal", "open-echo", "open-portforward", "open-portredirect", "reboot-device", "read-file",
         "run-command", "scan-directory"]
NEEDS = {"open-terminal": ["port", "name"], "open-echo": ["port"], "open-portforward": ["service", "route"],
         "open-portredirect": ["device_port", "m2m_port"], "read-file": ["port", "path"],
         "run-command": ["port", "command"]}
SERVED = {b"web": 80, b"ext": 81, b"extalt": 8000, b"alt": 8080}
REPLY = b"reply"


class World(object):
    """Everything an instruction can do, recorded."""

    def __init__(self, cx):
        self.cx = cx
        self.st = Stack(cx)
        fs().put("/data/f", REPLY)
        self.pty = Pty(cx, self.step)
        self.net = Net(cx)
        cx.st["waitpid"] = lambda pid, o: (pid, 0)
        self.cmd = Command(cx, ["out"], 0)
        self.cmd.out.put(REPLY)
        self.worlds = [self.pty.world, self.net.world, self.cmd.world]
        cx.st["poll"] = self.poll
        connect = self.net.connect

        def connected(sock, addr):
            connect(sock, addr)
            sock.peer.inp.put(REPLY)
            sock.peer.inp.closed = True
        self.net.connect = connected
        self.spoken = 0
        self.seen = self.counts()
        self.sent = 0

    def step(self):
        for t in self.pty.terms:
            if not t.out.closed:
                t.out.put(REPLY)
                t.out.closed = True

    def poll(self, p, timeout):
        for w in self.worlds:
            for fd in p.registered:
                if fd in w.sources:
                    return w.poll(p, timeout)
        self.cx.fail("a wait for nothing")

    def counts(self):
        c = self.st.client.calls
        return [len(c), len(self.pty.terms), len(sysrec(self.cx, "popen")), len(self.net.connects), len(fs().opens)]

    def effects(self):
        """What was done since the last time: [(kind, what)]"""
        a, b = self.seen, self.counts()
        self.seen = b
        out = [x for x in self.st.client.calls[a[0]:]]
        out += [("terminal", t) for t in self.pty.terms[a[1]:]]
        out += [("process", x) for x in sysrec(self.cx, "popen")[a[2]:]]
        out += [("connect", x) for x in self.net.connects[a[3]:]]
        out += [("open", x) for x in fs().opens[a[4]:]]
        return out

    def said(self):
        """Packets sent since the last time."""
        p = self.st.packets(self.sent)
        self.sent += len(p)
        return p

    def issue(self, data, sound=True):
        """Issue an instruction, let everything it starts run to its end."""
        self.st.deliver(binary(INSTRUCTION, b"sender", data))
        self.st.run()
        cx = self.cx
        cx.check(not sound or not self.st.crashes(), "no thread fails")
        for kind in ("check_output", "run", "system", "setuid", "kill"):
            cx.check(not sysrec(cx, kind), "no other command runs")
        for op, path in fs().trace:
            cx.check(op in ("open-r", "read", "stat"), "no file is changed")

    def echoes(self, port, want):
        """Is what is sent on a channel sent back on it?"""
        d = self.cx.cells("ping", 2)
        self.st.deliver(binary(ROUTE, port, d))
        p = self.said()
        if want:
            self.cx.check(len(p) == 1 and p[0][0] == SEND and p[0][1] == port and p[0][2] == d,
                          "an echo service sends back what it receives on its channel")
        else:
            self.cx.check(not p, "nothing is echoed on another channel")

    def nothing(self):
        self.cx.check(not self.effects(), "an instruction that names no action does nothing")
        self.cx.check(not self.said(), "an instruction that names no action sends nothing")

    def replied(self, port):
        p = self.said()
        got = b""
        for x in p:
            self.cx.check(x[1] == port, "the service answers on the channel the instruction names")
            if x[0] == SEND:
                got = got + x[2]
        return p, got

    def did(self, kind, d):
        """Exactly the action `kind` was performed, with the parameters d."""
        cx = self.cx
        e = self.effects()
        if kind in ("sync", "scan-directory"):
            cx.check(len(e) == 1 and e[0][0] == kind.split("-")[0], "the one action named is performed")
            cx.check(not self.said(), "nothing is sent")
        elif kind == "open-echo":
            cx.check(not e and not self.said(), "the one action named is performed")
            self.echoes(d["port"], True)
        elif kind == "reboot-device":
            cx.check(len(e) == 1 and e[0][0] == "process", "the one action named is performed")
            args, kw = e[0][1]
            cx.check(list(args) == ["/usr/bin/sudo", "/sbin/reboot"] and not kw.get("shell"), "the device is rebooted")
            cx.check(not self.said(), "nothing is sent")
        elif kind == "open-terminal":
            cx.check(len(e) == 1 and e[0][0] == "terminal", "the one action named is performed")
            t = e[0][1]
            size = d.get("size") or [80, 24]
            cx.check(len(t.sizes) == 1 and And(t.sizes[0][1] == size[0], t.sizes[0][0] == size[1]),
                     "the terminal has the size asked for")
            cx.check(self.replied(d["port"])[1] == REPLY, "the terminal's output is sent")
        elif kind in ("open-portforward", "open-portredirect"):
            cx.check(len(e) == 1 and e[0][0] == "connect", "the one action named is performed")
            forward = kind == "open-portforward"
            port = SERVED[d["service"]] if forward else d["device_port"]
            cx.check(And(e[0][1][0] == "127.0.0.1", e[0][1][1] == port),
                     "the connection is to the port the instruction names")
            cx.check(self.replied(d["route"][3] if forward else d["m2m_port"])[1] == REPLY,
                     "the data of the connection is sent")
        elif kind == "read-file":
            path = d["path"].decode("ascii")
            if not path.startswith("/"):
                path = "/" + path
            cx.check(len(e) == 1 and e[0][0] == "open", "the one action named is performed")
            cx.check(And(e[0][1][0] == path, e[0][1][1] in ("rb", "br")), "the file the instruction names is read")
            p, got = self.replied(d["port"])
            if path == "/data/f":
                cx.check(got == REPLY, "the file is sent")
            else:
                cx.check(len(p) == 2 and p[0][0] == SEND_CTRL, "a file that is missing is reported")
        else:
            cx.check(len(e) == 1 and e[0][0] == "process", "the one action named is performed")
            args, kw = e[0][1]
            cx.check(kw.get("shell") and args == d["command"].decode("ascii"), "the command named is run")
            cx.check(self.replied(d["port"])[1] == REPLY, "the command's output is sent")


def wire_data(d):
    return {k.encode("ascii"): v for k, v in d.items()}


def params(cx, kind, small=False):
    """The parameters of an instruction, of any value."""
    d = {"action": kind.encode("ascii")}

    def port(name, lo=10, hi=99):
        return cx.int(name, lo, hi)

    if kind == "open-terminal":
        d["port"], d["name"] = port("port"), b"shell"
        if cx.fault("sized"):
            d["size"] = [cx.int("columns", 100, 999), cx.int("lines", 10, 99)]
    elif kind == "open-echo":
        d["port"] = port("port")
    elif kind == "open-portforward":
        d["service"] = cx.pick("service", sorted(SERVED))
        d["route"] = [b"node1", cx.int("port1", 1, 9), b"node2", port("port")]
    elif kind == "open-portredirect":
        d["device_port"], d["m2m_port"] = cx.int("device port", 1000, 9999), port("port")
    elif kind == "read-file":
        d["port"] = port("port")
        w = cx.pick("path", ["known", "relative", "any"])
        d["path"] = {"known": b"/data/f", "relative": b"data/f"}.get(w) or b"/x" + cx.cells("path", 3, 97, 122)
    elif kind == "run-command":
        d["port"] = port("port")
        d["command"] = cx.cells("command", 4, 32, 126)
    return d


def one(cx, kind):
    w = World(cx)
    d = params(cx, kind)
    if cx.fault("more"):
        d["later"] = b"x"                   # parameters an instruction does not have are ignored
    w.issue(wire_data(d))
    w.did(kind, d)
    w.echoes(7, False)
    w.nothing()
    cx.reach("one")


def full(cx):
    """Every parameter any instruction takes."""
    return {"port": 12, "name": b"shell", "service": b"web", "route": [b"n", 1, b"m", 14], "device_port": 22,
            "m2m_port": 15, "path": b"/data/f", "command": b"ls"}


def named(cx, n, lo, hi):
    """An instruction with any name of n characters."""
    w = World(cx)
    d = full(cx)
    name = cx.cells("action", n, lo, hi) if n else b""
    d["action"] = name
    w.issue(wire_data(d))
    for k in KINDS:
        if name == k.encode("ascii"):
            w.did(k, d)
            cx.observe(k)
            return
    w.nothing()
    w.echoes(12, False)
    cx.reach("unknown")


def noise(cx, kind, empty):
    """The parameters of all other instructions are there as well, and those of this one may be empty."""
    w = World(cx)
    d = full(cx)
    d["action"] = kind.encode("ascii")
    if empty:
        for k in ("path", "command"):
            if k in NEEDS.get(kind, ()):
                d[k] = b""
    for k in cx.pick("more", [["zero"], ["size", "user"], ["type", "id"]]):
        d[k] = [9, 9] if k == "size" and kind != "open-terminal" else ([100, 50] if k == "size" else b"reboot-device")
    w.issue(wire_data(d))
    w.did(kind, d)
    cx.reach("noise")


def lacking(cx, kind):
    """An instruction one or more of whose parameters are missing."""
    w = World(cx)
    d = full(cx)
    d["action"] = kind.encode("ascii")
    gone = []
    for k in NEEDS.get(kind, []) + ["action"]:
        if cx.fault("missing " + k):
            del d[k]
            gone.append(k)
    cx.assume(len(gone) > 0)
    w.issue(wire_data(d))
    w.nothing()
    for p in (12, 14, 15):
        w.echoes(p, False)
    cx.reach("lacking")
    # the agent still follows instructions
    w.issue({b"action": b"sync"})
    w.did("sync", {})


def strangers(cx, kind, n):
    """Terminals and services there are none of."""
    w = World(cx)
    d = full(cx)
    d["action"] = kind.encode("ascii")
    name = cx.cells("name", n, 97, 122) if n else b""
    key, known = ("name", [b"shell"]) if kind == "open-terminal" else ("service", sorted(SERVED))
    for k in known:
        cx.assume(Not(name == k))
    d[key] = name
    w.issue(wire_data(d))
    w.nothing()
    w.echoes(12, False)
    cx.reach("strangers")


def odd(cx, kind):
    """Parameters of another type perform no other action."""
    w = World(cx)
    d = full(cx)
    d["action"] = kind.encode("ascii")
    k = cx.pick("which", NEEDS[kind])
    d[k] = cx.pick("value", [b"reboot-device", 7, [], [b"reboot-device"], {}])
    w.issue(wire_data(d), False)
    own = {"open-terminal": "terminal", "open-portforward": "connect", "open-portredirect": "connect",
           "read-file": "open", "run-command": "process"}.get(kind)
    for x in w.effects():
        cx.check(x[0] == own, "an instruction never performs another action")
        if x[0] == "process":
            cx.check(x[1][1].get("shell"), "the device is not rebooted")
    cx.reach("odd")
    w.said()
    w.issue({b"action": b"sync"}, False)
    w.did("sync", {})


def pair(cx, first):
    """One instruction after another."""
    w = World(cx)
    for i, k in enumerate([first, cx.pick("then", KINDS)]):
        d = full(cx)
        for p in ("port", "m2m_port"):
            d[p] += 20 * i
        d["route"] = [b"n", 1, b"m", 14 + 20 * i]
        d["action"] = k.encode("ascii")
        w.cmd.out.pending = REPLY
        w.cmd.out.closed = False
        w.issue(wire_data(d))
        w.did(k, d)
    cx.reach("pair")


def again(cx, kind, zero):
    """The very same instruction several times; channel 0."""
    w = World(cx)
    d = full(cx)
    if zero:
        d["port"] = d["m2m_port"] = 0
        d["route"] = [b"n", 1, b"m", 0]
    d["action"] = kind.encode("ascii")
    for i in range(3):
        w.cmd.out.pending = REPLY
        w.cmd.out.closed = False
        w.issue(wire_data(d))
        w.did(kind, d)
        if kind != "open-terminal" and cx.fault("closed"):
            w.st.close(d["route"][3] if kind == "open-portforward" else d["m2m_port"] if kind == "open-portredirect"
                       else d["port"])
    cx.reach("again")


def plan(tier):
    t = tier == "thorough"
    kinds = ["sync", "open-terminal", "open-echo", "open-portforward", "open-portredirect", "reboot-device",
             "read-file", "run-command", "scan-directory"]
    takes = ["open-terminal", "open-echo", "open-portforward", "open-portredirect", "read-file", "run-command"]
    return {
        "bounds": "each instruction with any parameters (channels 10 to 99, device ports 1000 to 9999, sizes up to "
                  "999, paths of 5 and commands of 4 characters); every name of up to %d printable characters; each with the parameters of all "
                  "the others and with empty ones; every set of missing parameters; terminal and service names of up to %d letters; parameters of other "
                  "types; every pair of instructions; each three times with the same parameters, also on channel 0" % (24 if t else 18, 12 if t else 8),
        "outside": "names holding bytes that are not ASCII (bytes that are no text are dropped before the comparison)",
        "jobs": [
            {"fn": "one", "cases": [{"kind": k} for k in kinds], "reach": ["one"], "hang": True, "max_steps": 20000},
            {"fn": "named", "cases": [{"n": n, "lo": 32, "hi": 126} for n in range(25 if t else 19)],
             "reach": ["unknown"], "hang": True, "max_steps": 20000},
            {"fn": "noise", "cases": [{"kind": k, "empty": e} for k in kinds for e in (False, True)],
             "reach": ["noise"], "hang": True, "max_steps": 20000},
            {"fn": "lacking", "cases": [{"kind": k} for k in kinds], "reach": ["lacking"]},
            {"fn": "strangers", "cases": [{"kind": k, "n": n} for k in ("open-terminal", "open-portforward")
                                          for n in range(13 if t else 9)], "reach": ["strangers"]},
            {"fn": "odd", "cases": [{"kind": k} for k in takes], "reach": ["odd"], "hang": True, "max_steps": 20000},
            {"fn": "again", "cases": [{"kind": k, "zero": z} for k in kinds for z in (False, True)], "reach": ["again"],
             "hang": True, "max_steps": 60000},
            {"fn": "pair", "cases": [{"first": k} for k in kinds], "reach": ["pair"], "hang": True,
             "max_steps": 30000},
        ]}
