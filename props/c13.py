"""C13: the command service streams stdout fully and always completes."""
from props.stack import *
from sxenv.lib import parse_json
import select


def kind_of(text):
    v = parse_json(text)
    return v.get("type") if isinstance(v, dict) else None


def judge(cx, st, cmd, chan, closed, failed, lost=False):
    data, control, closes = st.sent_on(chan)
    got = b""
    for d in data:
        cx.check(len(d) > 0, "no empty data is sent")
        got = got + d
    types = [kind_of(c) for c in control]
    cx.observe(types, closes, len(data))
    cx.check(cmd.out.total.startswith(got), "only the standard output is sent, in order")
    if not closed:
        if not failed:
            cx.check(got == cmd.out.total and cmd.out.closed, "the standard output is sent completely, up to its end")
            cx.check("error" not in types, "no error is reported when none happened")
        if not lost:
            cx.check(types.count("complete") == 1 and types[-1] == "complete",
                     "one completion control message is sent, at the end")
            cx.check(closes == 1, "the channel is asked to close once")
            cx.check(st.packets()[-1] == [REQ_CLOSE, chan], "closing is asked for last")
    for p in st.packets():
        cx.check(p[1] == chan, "nothing is sent on another channel")
    if cmd.alive:
        cx.check(bool(sysrec(cx, "prockill")) or bool(sysrec(cx, "procterm")) or
                 bool(sysrec(cx, "procsignal")) or bool(sysrec(cx, "kill")),
                 "a process still running is killed")
    for k in sysrec(cx, "kill"):
        cx.check(k[0] == cmd.proc.pid, "no other process is killed")
    cx.check(not st.crashes(), "the service thread does not fail")


def command(cx, steps, moves, closing, faults, sizes=(10, 99)):
    """One command: any output in any pieces, its streams ending in any order, I/O failures, the channel closing."""
    text = b"make all; echo 'done'"
    st = Stack(cx)
    cmd = Command(cx, moves, steps, sizes)
    chan = 6
    closed = []
    failed = []
    n = [0]
    bad = cx.choice("failing operation", faults + 1) if faults else 0
    err = cx.pick("error", [OSError(5, "x"), ValueError("x")]) if bad else None
    step0 = cmd.world.step

    def fail(what):
        n[0] += 1
        if n[0] == bad:
            failed.append(what)
            raise err

    def step():
        fail("poll")
        step0()
        if closing and not closed and cx.fault("channel closes"):
            closed.append(1)
            st.interfere(binary(NOTIFY_CLOSE, chan))

    def on_read(s):
        fail("read")
        if closing > 1 and not closed and cx.fault("channel closes at a read"):
            closed.append(1)
            st.interfere(binary(NOTIFY_CLOSE, chan))

    cmd.world.step = step
    cmd.on_read = on_read
    popen0 = cmd.popen
    ran = []

    def popen(p, args, kw):
        fail("popen")
        ran.append((args, kw))
        popen0(p, args, kw)

    cx.st["popen"] = popen
    st.instruct(action=b"run-command", port=chan, command=text)
    st.run()
    if "popen" in failed:
        data, control, closes = st.sent_on(chan)
        cx.check(not data and [kind_of(c) for c in control] == ["error"] and closes == 1,
                 "a command that cannot be started is reported by an error control message and a close request")
        cx.reach("not started")
        return
    cx.check(len(ran) == 1, "the command is run once")
    a, kw = ran[0]
    line = text.decode("ascii")
    if kw.get("shell"):
        cx.check(a == line or a == text or a == [line], "the command is the requested one, run by the shell")
    else:
        cx.check(isinstance(a, (list, tuple)) and len(a) == 3 and a[1] == "-c" and a[2] == line,
                 "the command is the requested one, run by the shell")
    judge(cx, st, cmd, chan, bool(closed), bool(failed))
    if closed:
        # after the close the loop ends soon: it does not wait for the command
        cx.check(cmd.world.polls <= steps + 6, "the service ends when the channel closes")
        cx.reach("closed")
    elif failed:
        cx.reach("failed")
    else:
        cx.reach("complete")


def closing_ends(cx):
    """A command that never ends is stopped when its channel closes."""
    st = Stack(cx, past=6)
    cmd = Command(cx, ["idle"], 0)
    when = cx.choice("close at poll", 3)
    after = [0]
    silent = cx.fault("the command is silent")
    polls = [0]

    def step():
        polls[0] += 1
        if polls[0] > when:
            if polls[0] == when + 1:
                st.interfere(binary(NOTIFY_CLOSE, 6))
            after[0] += 1
            cx.check(after[0] <= 3, "the service stops when the channel closes, though the command goes on")
        if not silent:
            cmd.out.put(b"tick")

    cmd.world.step = step
    st.instruct(action=b"run-command", port=6, command=b"yes")
    st.run()
    judge(cx, st, cmd, 6, True, False)
    cx.check(bool(sysrec(cx, "prockill")), "the process is killed")
    cx.reach("stopped")


def lasting(cx, quiet, pieces, size):
    """A command that is silent for a very long time, or writes very much."""
    st = Stack(cx, past=6)
    cmd = Command(cx, [], 0)
    polls = [0]
    data = [cx.cells("out", 2) + b"x" * size for _ in range(pieces)]
    data.append(cx.cells("last", 3))
    errs = cx.fault("it writes to its error stream meanwhile")

    def step():
        polls[0] += 1
        if polls[0] % (quiet + 1) == 0 and data:
            cmd.out.put(data.pop(0))
            if not data:
                cmd.out.closed = True
                cmd.err.closed = True
                cmd.alive = False
        elif errs and polls[0] % 7 == 3 and not cmd.err.closed:
            cmd.err.put(b"warning")

    cmd.world.step = step
    cmd.steps = -1
    cx.st["popen_poll"] = lambda p: None if cmd.alive else 0
    st.instruct(action=b"run-command", port=6, command=b"make")
    st.run()
    cx.check(not data, "the service goes on while the command runs")
    judge(cx, st, cmd, 6, False, False)
    cx.reach("lasting")


def broken(cx):
    """From some point on the operating system refuses to wait for the output, or to read it."""
    st = Stack(cx)
    cmd = Command(cx, ["out", "idle", "exit"], 3)
    what = cx.pick("what", ["poll", "read"])
    bad = cx.choice("from", 3)
    err = cx.pick("error", [OSError(5, "x"), ValueError("x")])
    n = [0]
    failed = []
    step0 = cmd.world.step

    def trouble():
        if n[0] >= bad:
            failed.append(1)
            cx.check(len(failed) <= 8, "the service ends when it fails")
            raise err
        n[0] += 1

    def step():
        if what == "poll":
            trouble()
        step0()

    cmd.world.step = step
    if what == "read":
        cmd.on_read = lambda s: trouble()
    st.instruct(action=b"run-command", port=6, command=b"x")
    st.run()
    judge(cx, st, cmd, 6, False, bool(failed))
    cx.reach("broken")


def transport(cx):
    """The transport fails at some send: the output that follows is still sent, the process does not stay."""
    st = Stack(cx)
    cmd = Command(cx, ["out", "out exit", "close out"], 3)
    n = [0]
    bad = cx.choice("failing send", 4) + 1

    def ws_send(ws, data):
        n[0] += 1
        if n[0] == bad:
            raise wire.WebSocketError("x")

    cx.st["ws_send"] = ws_send
    st.instruct(action=b"run-command", port=6, command=b"yes")
    st.run()
    cx.check(not st.crashes(), "the service thread does not fail")
    if cmd.alive:
        cx.check(bool(sysrec(cx, "prockill")), "a process still running is killed")
    cx.reach("transport")


def binary_command(cx):
    """Commands the operating system refuses."""
    st = Stack(cx)
    err = cx.pick("error", [OSError(2, "x"), ValueError("embedded null byte"), RuntimeError("x")])

    def popen(p, a, kw):
        raise err
    cx.st["popen"] = popen
    st.instruct(action=b"run-command", port=6, command=b"x")
    st.run()
    data, control, closes = st.sent_on(6)
    cx.check(not data and [kind_of(c) for c in control] == ["error"] and closes == 1,
             "a command that cannot be started is reported by an error control message and a close request")
    cx.check(not st.crashes(), "the service thread does not fail")
    cx.reach("refused")


def plan(tier):
    t = tier == "thorough"
    full = ["out", "err", "close out", "close err", "exit", "leave", "out exit", "idle"]
    few = ["out", "err", "out exit", "close out", "leave"]
    return {
        "bounds": "every history of up to %d steps of a child process (writing 10 to 99 bytes of any content to "
                  "either stream, closing either stream, exiting, staying silent) between two polls, level-triggered "
                  "readiness as Linux pipes report it, the channel closing during any poll or read, any of the first "
                  "%d operations failing, waiting or reading failing from any point on, the transport failing at any send; 1200 polls without output, 1200 "
                  "outputs, and output of 10 MB; two outputs of any size up to %d bytes" % (
                      5 if t else 4, 5 if t else 4, 3200000 if t else 1100000),
        "outside": "longer histories; the exit status reported; a kill failing",
        "assumptions": ["poll reports POLLIN while bytes are pending in a pipe and POLLHUP once its writer is gone"],
        "jobs": [
            {"fn": "command", "cases": [
                {"steps": 5 if t else 4, "moves": full, "closing": 0, "faults": 0},
                {"steps": 4 if t else 3, "moves": few, "closing": 2, "faults": 0},
                {"steps": 2, "moves": few, "closing": 0, "faults": 5 if t else 4},
                {"steps": 2, "moves": ["out", "out exit", "exit"], "closing": 0, "faults": 0,
                 "sizes": (1, 3200000 if t else 1100000)}], "hang": True, "weight": 3,
             "max_steps": 3000},
            {"fn": "closing_ends", "reach": ["stopped"], "hang": True, "max_steps": 3000},
            {"fn": "lasting", "cases": [{"quiet": 1200, "pieces": 1, "size": 4}, {"quiet": 0, "pieces": 1200, "size": 4},
                                        {"quiet": 0, "pieces": 40, "size": 100000},
                                        {"quiet": 0, "pieces": 2, "size": 5000000}],
             "reach": ["lasting"], "hang": True, "max_steps": 4000000},
            {"fn": "transport", "reach": ["transport"], "hang": True, "max_steps": 3000},
            {"fn": "binary_command", "reach": ["refused"]},
            {"fn": "broken", "reach": ["broken"], "hang": True, "max_steps": 3000},
        ]}
