"""C31: a terminal's process is hung up on channel close, then killed if it lingers."""
import errno
from props.stack import *
from sx import sched

CHAN = 12
HUPSIG, KILL = 1, 9


class Proc(object):
    """The process of the one terminal, and the signals sent to it."""

    def __init__(self, cx, pty):
        self.cx = cx
        self.pty = pty
        self.signals = []
        self.reaped = False
        self.alive = True           # False: ended, not yet reaped
        self.on_wait = None
        cx.st["kill"] = self.kill
        cx.st["waitpid"] = self.waitpid

    def kill(self, pid, sig):
        cx = self.cx
        cx.check(self.pty.terms and pid == self.pty.terms[0].pid, "no signal is sent to any other process")
        cx.check(not self.reaped, "no signal is sent after the process has been reaped")
        self.signals.append((sig, cx.st.get("now", 1000000.0)))

    def waitpid(self, pid, options):
        cx = self.cx
        cx.check(self.pty.terms and pid == self.pty.terms[0].pid, "only the terminal's process is waited for")
        cx.check(options & 1, "the wait does not block")
        if self.reaped:
            raise fsenv.err(errno.ECHILD)
        if self.on_wait is not None:
            self.on_wait()
        if self.alive:
            return 0, 0
        self.reaped = True
        return pid, cx.int("status", 0, 65535)

    def count(self, sig):
        return len([s for s in self.signals if s[0] == sig])


def launched(cx, st):
    n = st.start(action=b"open-terminal", port=CHAN, name=b"shell")
    cx.check(n == 1, "a terminal is opened")
    return st.queued()[-1]


def close_how(cx, st, how):
    if how == "closed":
        st.close(CHAN)
    elif how == "dropped":
        st.deliver(event("disconnected"))
    else:
        st.manager.on_client_close()


def start(cx, how, preemptions, again):
    """The channel closes while the terminal starts."""
    st = Stack(cx)
    pty = Pty(cx)
    p = Proc(cx, pty)
    t = launched(cx, st)
    cx.st["queue"] = []
    s = sched.Sched(cx, preemptions)
    polls = pty.world.poll
    done = []

    def kill(pid, sig):
        p.kill(pid, sig)
        cx.threads.yield_point()

    def poll(q, timeout):
        # the process goes on until it is hung up
        cx.threads.block(lambda: p.signals or done)
        if pty.terms:
            pty.terms[0].out.closed = True
        return polls(q, timeout)

    def fork():
        cx.threads.yield_point()
        r = pty.fork()
        cx.threads.yield_point()
        return r

    def waitpid(pid, options):
        p.alive = False
        return p.waitpid(pid, options)

    cx.st["poll"] = poll
    cx.st["kill"] = kill
    cx.st["fork"] = fork
    cx.st["waitpid"] = waitpid

    def server():
        close_how(cx, st, how)
        if again:
            close_how(cx, st, again)
        done.append(1)

    s.spawn(t._bootstrap, "terminal")
    s.spawn(server, "m2m")
    cx.check(s.run_all(), "no deadlock")
    cx.check(not s.crashes and not st.crashes(), "no thread fails")
    if pty.terms:
        cx.check(p.count(HUPSIG) == 1, "the process is sent a hang-up, exactly once")
        cx.check(len(p.signals) == 1, "no other signal is sent")
        cx.check(p.reaped, "the process is waited for")
        cx.reach("hung up")
    else:
        cx.reach("never started")
    cx.reach("started")


def life(cx, n, how):
    """A terminal that runs, then its channel closes; its process ends at any time after that, or not at all."""
    st = Stack(cx)
    step = [0]
    at = cx.choice("closed at", 3)

    def world():
        step[0] += 1
        if step[0] == 1:
            for k in range(2):
                if k == at:
                    st.interfere(*closing())
        if step[0] >= 2:
            pty.terms[0].out.closed = True

    def closing():
        return [binary(NOTIFY_CLOSE, CHAN)] if how == "closed" else [event("disconnected")]

    pty = Pty(cx, world)
    p = Proc(cx, pty)
    cx.st["now"] = cx.real("start", 0, 10 ** 6)
    launched(cx, st)
    w = {"n": 0, "lingering": None}

    def sleep(d):
        cx.check(d > 0, "the wait pauses between looks")
        look()
        dt = cx.real("pause", 0, 30)
        cx.assume(dt >= d)
        cx.st["now"] = cx.st["now"] + dt
        w["n"] += 1
        if w["n"] >= n or cx.fault("ends"):
            p.alive = False

    def look():
        if w["lingering"] is not None:
            cx.check(p.count(KILL) >= 1, "a process still there 15 seconds later is killed")

    def on_wait():
        if p.alive:
            hup = [s for s in p.signals if s[0] == HUPSIG]
            cx.check(len(hup) == 1, "a hang-up is sent before the wait")
            if cx.st["now"] - hup[0][1] >= 15:
                w["lingering"] = True
                cx.reach("lingers")

    p.on_wait = on_wait
    cx.st["sleep"] = sleep
    threads.run_threads(1)          # the terminal's thread, to its end
    if at == 2:
        # the shell has ended by itself, the channel closes later
        cx.check(not p.signals, "no signal is sent before the channel closes")
        p.alive = False
        st.deliver(*closing())
    st.run()
    cx.check(not st.crashes(), "no thread fails")
    cx.check(p.count(HUPSIG) == 1, "the process is sent a hang-up, exactly once")
    cx.check(p.count(KILL) <= 1, "the process is killed at most once")
    for sig, t in p.signals:
        cx.check(sig in (HUPSIG, KILL), "no other signal is sent")
        if sig == KILL:
            cx.check(t - p.signals[0][1] >= 15, "the process is not killed before 15 seconds have passed")
            cx.reach("killed")
    cx.check(p.reaped, "the wait goes on until the process has ended")
    looks = len(sysrec(cx, "waitpid"))
    # closing what is closed does nothing
    st.manager.on_client_close()
    st.close(CHAN)
    st.deliver(event("disconnected"))
    st.run()
    cx.check(len(sysrec(cx, "waitpid")) == looks, "the wait for a process ends when it has exited")
    cx.check(p.count(HUPSIG) == 1, "the process is sent a hang-up, exactly once")
    cx.reach("life")


def stubborn(cx):
    """A process that does not end for a day."""
    st = Stack(cx)
    pty = Pty(cx, lambda: (st.interfere(binary(NOTIFY_CLOSE, CHAN)),
                           setattr(pty.terms[0].out, "closed", True)) if pty.terms else None)
    p = Proc(cx, pty)
    big = cx.real("pause", 20, 5000)
    cx.st["now"] = 0.0
    launched(cx, st)
    k = [0]

    def sleep(d):
        k[0] += 1
        cx.st["now"] = cx.st["now"] + (big if k[0] < 20 else 90000)
        if k[0] > 60:
            cx.stop()
    cx.st["sleep"] = sleep
    st.run()
    cx.check(p.count(KILL) == 1 and p.count(HUPSIG) == 1, "a process still there is killed once")
    cx.check(not st.crashes(), "no thread fails")
    cx.reach("stubborn")


def several(cx, n):
    """Of several terminals, only the one whose channel closes is hung up."""
    st = Stack(cx, past=CHAN)
    which = cx.choice("which", n)
    stage = [0]
    pty = Pty(cx)
    kills = []
    cx.st["kill"] = lambda pid, sig: kills.append((pid, sig))
    cx.st["waitpid"] = lambda pid, o: (pid, 0)
    for i in range(n):
        st.start(action=b"open-terminal", port=CHAN + i, name=b"shell")
    q = st.queued()
    cx.st["queue"] = []

    def go(i):
        def step():
            if i + 1 < n:
                if stage[0] == i:
                    stage[0] += 1
                    threads.as_task(10 + i, go(i + 1))
            elif stage[0] < 99:
                stage[0] = 99
                st.interfere(binary(NOTIFY_CLOSE, CHAN + which))
                cx.check(kills == [(pty.terms[which].pid, HUPSIG)], "the terminal whose channel closes is hung up, "
                                                                   "no other")
                cx.reach("one")
            for t in pty.terms:
                t.out.closed = True

        def run():
            pty.step = step
            q[i]._bootstrap()
        return run

    go(0)()
    for i in range(n):
        if i != which:
            st.close(CHAN + i)
    got = sorted(k[0] for k in kills if k[1] == HUPSIG)
    cx.check(got == sorted(t.pid for t in pty.terms), "each process is hung up once, when its channel closes")
    cx.reach("several")


def lasting(cx, rounds, linger):
    """Terminal after terminal in one life: each process is hung up, and killed if it lingers."""
    st = Stack(cx)
    pty = Pty(cx)
    log = []
    gone = set()
    cx.st["now"] = 1000.0

    def kill(pid, sig):
        cx.check(pid == pty.terms[-1].pid, "no signal is sent to any other process")
        cx.check(pid not in gone, "no signal is sent after the process has been reaped")
        log.append((sig, cx.st["now"]))

    def waitpid(pid, o):
        cx.check(pid == pty.terms[-1].pid and pid not in gone, "only the terminal's process is waited for")
        if (KILL if linger else HUPSIG) in [x[0] for x in log]:
            gone.add(pid)
            return pid, 0
        return 0, 0

    def sleep(d):
        cx.st["now"] = cx.st["now"] + d

    cx.st["kill"] = kill
    cx.st["waitpid"] = waitpid
    cx.st["sleep"] = sleep
    for i in range(rounds):
        del log[:]
        pty.world.idle = pty.world.polls = 0
        chan = CHAN + i
        st.start(action=b"open-terminal", port=chan, name=b"shell")

        def step():
            st.interfere(binary(NOTIFY_CLOSE, chan))
            pty.terms[-1].out.closed = True

        pty.step = step
        st.run()
        cx.check(len(pty.terms) == i + 1, "a terminal is opened")
        cx.check([x[0] for x in log] == ([HUPSIG, KILL] if linger else [HUPSIG]),
                 "each process is hung up once, and killed once if it lingers")
        if linger:
            cx.check(log[1][1] - log[0][1] >= 15 and log[1][1] - log[0][1] <= 60,
                     "a process still there 15 seconds later is killed")
        cx.check(pty.terms[-1].pid in gone, "the process is waited for")
        cx.check(not st.crashes(), "no thread fails")
    cx.reach("lasting")


def bystanders(cx, why):
    """A request for another terminal fails, or another service does: a running terminal is not touched."""
    st = Stack(cx)
    pty = Pty(cx)
    kills = []
    cx.st["kill"] = lambda pid, sig: kills.append((pid, sig))
    cx.st["waitpid"] = lambda pid, o: (pid, 0)
    st.start(action=b"open-terminal", port=CHAN, name=b"shell")
    t = st.queued()[-1]
    cx.st["queue"] = []
    if why == "full":
        st.start(action=b"open-terminal", port=CHAN + 1, name=b"shell")
    done = []
    said = []

    def step():
        if not done:
            done.append(1)
            me = pty.terms[0]
            cx.st["thread_fault"] = (lambda t: True) if why == "thread" else None
            other = {"port": CHAN + 2, "name": b"shell", "action": b"open-terminal"}
            if why == "same":
                other["port"] = CHAN
            if why == "name":
                other["name"] = b"other"
            elif why == "file":
                other = {"action": b"read-file", "path": b"/none", "port": CHAN + 2}
            if why == "fork":
                def fork():
                    cx.st["fork"] = pty.fork
                    raise fsenv.err(errno.EAGAIN)
                cx.st["fork"] = fork
            st.interfere(binary(INSTRUCTION, b"sender", {k.encode("ascii"): other[k] for k in other}))
            cx.st["thread_fault"] = None
            q = [x for x in st.queued() if x is not t]
            if why in ("fork", "file") and q:
                cx.st["queue"].remove(q[-1])
                pty.step = None
                threads.as_task(20, q[-1]._bootstrap)
            if why == "same" and q:
                cx.st["queue"].remove(q[-1])
            st.interfere(binary(NOTIFY_CLOSE, CHAN + 2))
            cx.check(not kills, "no signal is sent before the terminal's channel closes")
            data = cx.cells("output", 2)
            said.append(data)
            me.out.put(data)
            me.out.closed = True
            cx.reach("tried")

    pty.step = step
    t._bootstrap()
    cx.check(bool(done) and not kills, "no signal is sent before the terminal's channel closes")
    if why == "same":
        cx.reach("bystanders")
        return
    got = b""
    for x in st.sent_on(CHAN)[0]:
        got = got + x
    cx.check(got == said[0], "a running terminal is not touched")
    st.close(CHAN)
    cx.check(kills == [(pty.terms[0].pid, HUPSIG)], "the process is hung up once, when its channel closes")
    cx.reach("bystanders")


def plan(tier):
    t = tier == "thorough"
    Y = "@dataplicity.m2m.remoteprocess,dataplicity.m2m.proxy"
    return {
        "bounds": ("closing (by the server, by losing the connection, at shutdown, and twice) and starting on two threads "
                  "with %d preemptions at any statement; a process that ends in any of the first %d looks after the "
                  "hang-up, at any clock readings, or not at all; up to %d terminals; requests for another "
                  "terminal failing in four ways meanwhile, or asking for the channel again" % (3 if t else 2, 9 if t else 7,
                                                                                       3 if t else 2)) +
                  "; a life of dozens of terminals",
        "outside": "a wait thread that cannot be started; a clock that is set back during the wait",
        "jobs": [
            {"fn": "start" + Y, "cases": [{"how": h, "preemptions": 3 if t else 2, "again": a} for h, a in
                                          (("closed", ""), ("dropped", "closed"), ("shutdown", "closed"))],
             "reach": ["started", "hung up"], "hang": True, "max_steps": 30000},
            {"fn": "life", "cases": [{"n": 9 if t else 7, "how": h} for h in ("closed", "dropped")],
             "reach": ["life", "lingers", "killed"], "hang": True, "max_steps": 30000, "weight": 2},
            {"fn": "lasting", "cases": [{"rounds": 200 if t else 70, "linger": k} for k in (False, True)],
             "reach": ["lasting"], "hang": True, "max_steps": 4000000},
            {"fn": "stubborn", "reach": ["stubborn"], "hang": True, "max_steps": 30000},
            {"fn": "bystanders", "cases": [{"why": w} for w in ("thread", "full", "fork", "name", "file", "same")],
             "reach": ["tried", "bystanders"], "hang": True, "max_steps": 30000},
            {"fn": "several", "cases": [{"n": 2}], "reach": ["several", "one"], "hang": True, "max_steps": 30000},
        ]}
