"""C12: the file service sends exactly the file, then closes."""
from props.stack import *
from sxenv.lib import parse_json
from sxenv.fs import fs


def control_type(text):
    v = parse_json(text)
    return v.get("type") if isinstance(v, dict) else None


def outcome(cx, st, chan, content, failed, closed):
    data, control, closes = st.sent_on(chan)
    got = b""
    for d in data:
        cx.check(len(d) > 0, "no empty data is sent")
        got = got + d
    if closed:
        cx.check(content.startswith(got), "what is sent is a beginning of the file")
    elif failed:
        cx.check(content.startswith(got), "no wrong data is sent")
    else:
        cx.check(got == content, "the file is sent exactly")
    kinds = [p[0] for p in st.packets()]
    cx.observe(kinds, closes, len(got))
    if not closed:
        cx.check(closes == 1 and kinds[-1] == REQ_CLOSE, "the channel is asked to close once, at the end")
        if failed:
            cx.check(len(control) == 1 and control_type(control[0]) == "error" and kinds[-2] == SEND_CTRL,
                     "a failure is reported by one error control message before the close")
        else:
            cx.check(not control, "no error is reported for a file sent completely")
    for p in st.packets():
        cx.check(p[1] == chan, "nothing is sent on another channel")
    cx.check(not st.crashes(), "the service thread does not fail")
    f = fs()
    for path, mode in f.opens:
        cx.check(mode.replace("b", "").replace("t", "") == "r", "the file is opened read-only")
    for op, path in f.trace:
        cx.check(op in ("open-r", "read", "stat"), "nothing is changed")
    cx.check(not f.handles, "the file is closed")


def send(cx, most, faults, closing):
    """One file of any size and content, a failure or a close of the channel at any point."""
    f = fs()
    content = cx.bytes("content", 0, most)
    f.put("/data/f", content)
    st = Stack(cx)
    chan = cx.int("channel", 0, 10 ** 6)
    ops = [0]
    failed = []
    closed = []
    bad = cx.choice("failing operation", faults + 1) if faults else 0
    err = cx.pick("error", [OSError(5, "Input/output error"), ValueError("x")]) if bad else None

    def hook(op, path, node):
        if op in ("open-r", "read"):
            ops[0] += 1
            if ops[0] == bad:
                failed.append(op)
                raise err
            if closing and ops[0] > 1 and not closed and cx.fault("channel closes"):
                closed.append(1)
                st.interfere(binary(NOTIFY_CLOSE, chan))

    f.hook = hook

    def ws_send(ws, data):
        if closing and not closed and cx.fault("channel closes at a send"):
            closed.append(1)
            st.interfere(binary(NOTIFY_CLOSE, chan))

    if closing:
        cx.st["ws_send"] = ws_send
    st.instruct(action=b"read-file", port=chan, path=b"/data/f")
    st.run()
    cx.st.pop("ws_send", None)
    outcome(cx, st, chan, content, bool(failed), bool(closed))
    if failed:
        cx.reach("failed " + failed[0])
    elif closed:
        cx.reach("closed")
    else:
        cx.reach("sent")


def transport(cx, most):
    """The transport fails at some send: the rest is still sent, and the channel is asked to close."""
    f = fs()
    content = cx.bytes("content", 1, most)
    f.put("/data/f", content)
    st = Stack(cx)
    n = [0]
    bad = cx.choice("failing send", 4) + 1

    def ws_send(ws, data):
        n[0] += 1
        if n[0] == bad:
            raise wire.WebSocketError("x")

    cx.st["ws_send"] = ws_send
    st.instruct(action=b"read-file", port=4, path=b"/data/f")
    st.run()
    data, control, closes = st.sent_on(4)
    cx.check(closes == 1 or n[0] == bad, "the channel is asked to close")
    cx.check(not st.crashes(), "the service thread does not fail")
    cx.reach("transport")


def huge(cx, size):
    """A very big file."""
    f = fs()
    content = cx.bytes("content", size, size + 9)
    f.put("/data/f", content)
    st = Stack(cx)
    st.instruct(action=b"read-file", port=6, path=b"/data/f")
    st.run()
    at = 0
    for d in st.sent_on(6)[0]:
        n = len(d)
        cx.check(n > 0 and d == content[at:at + n], "the file is sent exactly")
        at += n
    data, control, closes = st.sent_on(6)
    cx.check(at == len(content) and closes == 1 and not control, "the file is sent exactly")
    cx.reach("huge")


def virtual(cx, most):
    """Files whose size is reported wrongly, such as those under /proc (0) or ones being written to."""
    f = fs()
    content = cx.bytes("content", 0, most)
    n = f.put("/proc/f", content)
    n.size = cx.int("reported size", 0, most)
    n.stream = cx.fault("no position")       # like a pipe or a device: seek fails
    cx.st["short_reads"] = 2
    if n.stream:
        n.size = 0
    st = Stack(cx, past=9)
    st.instruct(action=b"read-file", port=9, path=b"/proc/f")
    st.run()
    outcome(cx, st, 9, content, False, False)
    cx.reach("virtual")


def missing(cx):
    """Files that cannot be opened."""
    f = fs()
    kind = cx.pick("kind", ["absent", "directory", "no parent", "not a directory", "nul"])
    f.mkdirs("/data/dir")
    f.put("/data/file", b"x")
    path = {"absent": b"/data/g", "directory": b"/data/dir", "no parent": b"/none/g",
            "not a directory": b"/data/file/x", "nul": b"/data/\0"}[kind]
    st = Stack(cx)
    st.instruct(action=b"read-file", port=7, path=path)
    st.run()
    outcome(cx, st, 7, b"", True, False)
    cx.reach("missing")


def paths(cx, n, text):
    """The path that is opened is the requested one."""
    f = fs()
    if text:
        p = cx.cells("path", n, 1, 127)
    else:
        p = cx.cells("path", n, 33, 127)
    st = Stack(cx)
    f.oracle = None
    st.instruct(action=b"read-file", port=7, path=p)
    st.run()
    want = p.decode("ascii")
    if not want.startswith("/"):
        want = "/" + want
    cx.check(len(f.opens) == 1, "one file is opened")
    got = f.opens[0][0]
    if isinstance(got, bytes):
        got = got.decode("ascii")
    cx.check([c for c in got.split("/") if c] == [c for c in want.split("/") if c] and got.startswith("/"),
             "exactly the requested path is opened")
    cx.check(got.endswith("/") or not want.endswith("/"), "exactly the requested path is opened")
    cx.reach("path")


def two(cx, most):
    """Two files at the same time, each on its own channel."""
    f = fs()
    a = cx.bytes("a", 0, most)
    b = cx.bytes("b", 0, most)
    f.put("/a", a)
    f.put("/b", b)
    st = Stack(cx, past=1)
    st.instruct(action=b"read-file", port=1, path=b"/a")
    st.instruct(action=b"read-file", port=2, path=b"b")
    order = cx.choice("order", 2)
    if order:
        cx.st["queue"].reverse()
    st.run()
    for chan, content in ((1, a), (2, b)):
        data, control, closes = st.sent_on(chan)
        got = b""
        for d in data:
            got = got + d
        cx.check(got == content and closes == 1 and not control, "each file is sent on its own channel")
    cx.reach("two")


def plan(tier):
    t = tier == "thorough"
    m = 3300000 if t else 2200000
    m2 = 2200000 if t else 1100000
    return {
        "bounds": "files of any content and any size up to %d bytes, and of 70 and 300 MB; a failure at any of the first %d open and read "
                  "operations; the channel closing during any read or send; paths of up to %d arbitrary ASCII "
                  "characters; files of a wrongly reported size, or that can only be read on; two transfers" % (m, 6 if t else 4, 7 if t else 5),
        "outside": "bigger files; files changing while they are read; paths that are not ASCII",
        "jobs": [
            {"fn": "send", "cases": [{"most": m, "faults": 6 if t else 4, "closing": False},
                                     {"most": m, "faults": 0, "closing": True}], "hang": True, "weight": 2},
            {"fn": "transport", "cases": [{"most": m}], "reach": ["transport"], "hang": True},
            {"fn": "huge", "cases": [{"size": k} for k in (70000000, 300000000)], "reach": ["huge"], "hang": True,
             "max_steps": 2000000},
            {"fn": "virtual", "cases": [{"most": m2}], "reach": ["virtual"], "hang": True},
            {"fn": "missing", "reach": ["missing"]},
            {"fn": "paths", "cases": [{"n": k, "text": True} for k in range(1, 8 if t else 6)], "reach": ["path"]},
            {"fn": "two", "cases": [{"most": m2}], "reach": ["two"], "hang": True},
        ]}
