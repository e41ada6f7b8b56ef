"""C30: terminal input and output are complete and in order."""
from props.stack import *
from sx import sched
from sxenv.lib import json_bytes

CHAN = 12


def opened(cx, st, pty, size=None):
    kw = {"action": b"open-terminal", "port": CHAN, "name": b"shell"}
    if size is not None:
        kw["size"] = size
    n = st.start(**kw)
    cx.check(n == 1, "a terminal is opened")


def output(cx, steps, moves, sizes, short=0):
    """The process writes, and ends, in any order; everything it wrote is sent."""
    st = Stack(cx)
    left = [steps]

    def step():
        if not pty.terms:
            return
        t = pty.terms[0]
        t.short_reads = max(t.short_reads, 0)
        if left[0] <= 0:
            t.out.closed = True
            return
        left[0] -= 1
        m = cx.pick("process", moves)
        if t.out.closed:
            return
        if m in ("out", "out end"):
            t.out.put(cx.bytes("out", *sizes))
        if m in ("end", "out end"):
            t.out.closed = True

    pty = Pty(cx, step)
    opened(cx, st, pty)
    inner = pty.fork

    def fork():
        r = inner()
        pty.terms[0].short_reads = short
        return r
    cx.st["fork"] = fork
    st.run()
    t = pty.terms[0]
    data, control, closes = st.sent_on(CHAN)
    got = b""
    for d in data:
        got = got + d
    cx.check(got == t.out.total, "every byte the process outputs is sent once and in order")
    cx.check(not control, "output is sent as data")
    for p in st.packets():
        cx.check(p[0] not in (SEND, SEND_CTRL) or p[1] == CHAN, "output is sent on the terminal's channel")
    cx.check(not st.crashes(), "the terminal's thread does not fail")
    cx.observe(len(got))
    cx.reach("output")


def typed(cx, steps, moves, slow):
    """The user types, before the process starts too; the terminal takes any part of each write."""
    st = Stack(cx)
    left = [steps]
    sent = []
    budget = [slow]

    def type_(n=None):
        d = cx.bytes("typed", 10, 99)
        sent.append(d)
        st.interfere(binary(ROUTE, CHAN, d))

    def step():
        if not pty.terms:
            return
        t = pty.terms[0]
        if left[0] <= 0:
            t.out.closed = True
            return
        left[0] -= 1
        m = cx.pick("event", moves)
        if m == "type":
            type_()
        elif m == "twice":
            type_()
            type_()
        elif m == "empty":
            st.interfere(binary(ROUTE, CHAN, b""))
        elif m == "other":
            st.interfere(binary(ROUTE, 40, b"other channel"))
        elif m == "out":
            t.out.put(b"echo")

    def on_write(t, data):
        n = len(data)
        if budget[0] > 0 and n > 1:
            budget[0] -= 1
            k = cx.int("taken", 1, 99)
            cx.assume(k <= n)
            return k
        return n

    pty = Pty(cx, step)
    pty.on_write = on_write
    opened(cx, st, pty)
    for _ in range(cx.choice("early", 3)):
        d = cx.bytes("early", 10, 99)
        sent.append(d)
        st.deliver(binary(ROUTE, CHAN, d))
        cx.reach("early")
    st.run()
    want = b""
    for d in sent:
        want = want + d
    cx.check(pty.terms[0].typed == want, "every byte the user sends is written to the process once and in order")
    cx.check(st.sent_on(CHAN)[2] == 0, "input does not close the terminal")
    cx.check(not st.crashes(), "the terminal's thread does not fail")
    cx.reach("typed")


def lasting(cx, early, rounds, quiet):
    """Very much typed before the start, very many pieces both ways, very long silences."""
    st = Stack(cx, past=CHAN)
    sent, out = [], []
    polls = [0]
    left = [rounds]

    def step():
        if not pty.terms:
            return
        polls[0] += 1
        if polls[0] % (quiet + 1):
            return
        t = pty.terms[0]
        if left[0] <= 0:
            t.out.closed = True
            return
        left[0] -= 1
        d, u = cx.cells("out", 2), cx.cells("typed", 2)
        t.out.put(d)
        out.append(d)
        sent.append(u)
        st.interfere(binary(ROUTE, CHAN, u))

    pty = Pty(cx, step)
    opened(cx, st, pty)
    for _ in range(early):
        d = cx.cells("early", 2)
        sent.append(d)
        st.deliver(binary(ROUTE, CHAN, d))
    st.run()
    cx.check(left[0] == 0, "the terminal goes on for as long as its process")
    want = b""
    for d in sent:
        want = want + d
    cx.check(pty.terms[0].typed == want, "every byte the user sends is written to the process once and in order")
    got, want = b"", b""
    for d in st.sent_on(CHAN)[0]:
        got = got + d
    for d in out:
        want = want + d
    cx.check(got == want, "every byte the process outputs is sent once and in order")
    cx.check(not st.crashes(), "the terminal's thread does not fail")
    cx.reach("lasting")


def race(cx, preemptions):
    """The user types while the terminal starts."""
    st = Stack(cx)
    pty = Pty(cx, lambda: setattr(pty.terms[0].out, "closed", pty.w_done) if pty.terms else None)
    pty.w_done = False
    opened(cx, st, pty)
    t = st.queued()[0]
    cx.st["queue"] = []
    s = sched.Sched(cx, preemptions)
    polls = pty.world.poll

    def poll(p, timeout):
        # the process goes on until the user has typed
        cx.threads.block(lambda: pty.w_done)
        return polls(p, timeout)
    cx.st["poll"] = poll
    a, b, c = b"aa", b"bb", b"cc"

    def user():
        st.deliver(binary(ROUTE, CHAN, a), binary(ROUTE, CHAN, b), binary(ROUTE, CHAN, c))
        pty.w_done = True

    s.spawn(t._bootstrap, "terminal")
    s.spawn(user, "m2m")
    cx.check(s.run_all(), "no deadlock")
    cx.check(not s.crashes and not st.crashes(), "no thread fails")
    cx.check(pty.terms[0].typed == a + b + c, "every byte the user sends is written to the process once and in order")
    cx.check(st.sent_on(CHAN)[2] == 0, "input does not close the terminal")
    cx.reach("race")


def winsize(arr):
    """(columns, lines) of the array given to the kernel"""
    return (arr[1], arr[0])


def resize(cx, steps, start, rng):
    """Resize requests before and after the start, and other control messages."""
    st = Stack(cx)
    left = [steps]
    want = []

    def ask(deliver):
        k = cx.pick("control", ["resize", "junk"])
        if k == "resize":
            c, l = cx.int("columns", *rng), cx.int("lines", *rng)
            want.append((c, l))
            deliver(binary(ROUTE_CTRL, CHAN, json_bytes({"type": "window_resize", "size": [c, l]})))
        else:
            deliver(binary(ROUTE_CTRL, CHAN, cx.pick("junk", [b"{}", b"nonsense", b'{"type": "other", "size": [1, 2]}',
                                                              b"\xff", b"[]"])))

    def current(msg):
        t = pty.terms[0]
        cx.check(len(t.sizes) > 0, "a terminal has a size")
        cx.check(And(*[x == y for x, y in zip(winsize(t.sizes[-1]), want[-1])]), msg)
        cx.check(And(*[x == 0 for x in list(t.sizes[-1])[2:]]), "the pixel size is unknown")

    def step():
        if not pty.terms:
            return
        current("the terminal has the size last asked for")
        if left[0] <= 0:
            pty.terms[0].out.closed = True
            return
        left[0] -= 1
        ask(st.interfere)
        current("a resize request sets the size")

    pty = Pty(cx, step)
    size = None
    if start:
        size = [cx.int("columns", *rng), cx.int("lines", *rng)]
    want.append(tuple(size) if size else (80, 24))
    opened(cx, st, pty, size)
    if cx.fault("early"):
        ask(st.deliver)
        cx.reach("early")
    st.run()
    current("the terminal has the size last asked for")
    cx.check(not st.crashes(), "the terminal's thread does not fail")
    cx.reach("resize")


def plan(tier):
    t = tier == "thorough"
    n = 4 if t else 3
    return {
        "bounds": "the process outputs up to %d times, of any content and 10 to 99 bytes (or up to 3 MB) each, ending "
                  "at any time, up to 2 reads returning any part; the user types before the start and in up to %d "
                  "steps, up to %d writes taking any part; typing and starting on two threads with %d preemptions; up "
                  "to %d control messages; 1200 inputs before the start, 1200 inputs and outputs, 1200 quiet polls with sizes of 1 to 99 or 1000 to 9999" % (n, n, 3 if t else 2, 3 if t else 2, n),
        "outside": "a terminal whose process has ended while the user types; longer histories",
        "jobs": [
            {"fn": "output", "cases": [
                {"steps": n, "moves": ["out", "end", "out end"], "sizes": [10, 99]},
                {"steps": 2, "moves": ["out", "out end"], "sizes": [10, 99], "short": 2},
                {"steps": 2, "moves": ["out", "out end"], "sizes": [1000000, 3000000]}],
             "reach": ["output"], "hang": True, "max_steps": 30000},
            {"fn": "typed", "cases": [{"steps": n, "moves": ["type", "out"], "slow": 3 if t else 2},
                                      {"steps": 2, "moves": ["type", "twice", "empty", "other"], "slow": 1}],
             "reach": ["typed", "early"], "hang": True, "max_steps": 30000},
            {"fn": "lasting", "cases": [{"early": 1200, "rounds": 1, "quiet": 0}, {"early": 0, "rounds": 1200, "quiet": 0},
                                        {"early": 1, "rounds": 2, "quiet": 1200}], "reach": ["lasting"], "hang": True,
             "max_steps": 4000000},
            {"fn": "race@dataplicity.m2m.remoteprocess,dataplicity.m2m.proxy",
             "cases": [{"preemptions": 3 if t else 2}], "reach": ["race"], "hang": True, "max_steps": 30000},
            {"fn": "resize", "cases": [{"steps": 2, "start": x, "rng": y} for x in (True, False) for y in ([1, 9], [10, 99], [1000, 9999])],
             "reach": ["resize", "early"], "hang": True, "max_steps": 30000},
        ]}
