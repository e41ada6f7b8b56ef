"""C40: an echo channel sends back exactly what it receives."""
from props.stack import *

CHANS = [12, 10 ** 6]


def history(cx, n, ops, lim, past=False):
    """Data, closes, lost connections and other events on two channels, on which echoes are opened at any time."""
    st = Stack(cx, past=CHANS[0] if past else None)
    echo = [False, False]
    want = [b"", b""]
    fails = [0]

    def transport(ws, data):
        if fails[0]:
            fails[0] = 0
            raise [wire.WebSocketError("x"), OSError(32, "Broken pipe")][cx.choice("error", 2)]

    cx.st["ws_send"] = transport
    for k in range(n):
        op = cx.pick("op", ops if k else ["open"])
        i = cx.choice("channel", 2) if op in ("open", "data", "close", "empty", "control", "lost") else 0
        c = CHANS[i]
        if op == "open":
            cx.check(st.start(action=b"open-echo", port=c) == 0, "an echo needs no thread")
            echo[i] = True
        elif op in ("data", "lost"):
            d = cx.bytes("data", lim[0], lim[1])
            if op == "lost":
                # the transport fails to take it
                fails[0] = 1
            st.deliver(binary(ROUTE, c, d))
            fails[0] = 0
            if echo[i] and op == "data":
                want[i] = want[i] + d
                cx.reach("echoed")
        elif op == "empty":
            st.deliver(binary(ROUTE, c, b""))
        elif op == "control":
            st.deliver(binary(ROUTE_CTRL, c, b"{}"))
        elif op == "close":
            st.close(c)
            echo[i] = False
        elif op == "drop":
            st.reconnect()
            echo = [False, False]
        elif op == "garbage":
            st.deliver(binary(ROUTE, c, 5), wire.WsEvent("binary", b"l"), binary(INSTRUCTION, b"sender", {b"action": b"open-echo"}))
        for j in range(2):
            data, control, closes = st.sent_on(CHANS[j])
            got = b""
            for x in data:
                got = got + x
            cx.check(got == want[j], "what an echo channel receives is sent back on it, once and in order, and "
                                     "nothing else is")
            cx.check(not control and not closes, "an echo channel sends back data only")
    cx.reach("history")


def shapes(cx):
    """Data of special shapes and any content."""
    st = Stack(cx)
    st.start(action=b"open-echo", port=12)
    k = cx.choice("shape", 6)
    if k == 0:
        d = cx.cells("data", 3)
    elif k == 1:
        d = cx.bytes("data", 1000, 9999)
    elif k == 2:
        d = cx.bytes("data", 1000000, 9999999)
    elif k == 3:
        d = b" \t\r\n" + cx.cells("data", 1) + b" \r\n"
    elif k == 4:
        d = b"\x00" * 9 + cx.cells("data", 1) + b"\x00"
    else:
        d = b"10:" + cx.cells("data", 2) + b"e\xff\xfe\x80"
    st.deliver(binary(ROUTE, 12, d))
    data, control, closes = st.sent_on(12)
    got = b""
    for x in data:
        got = got + x
    cx.check(got == d, "what an echo channel receives is sent back on it, whatever it is")
    cx.check(not control and not closes, "an echo channel sends back data only")
    cx.reach("shapes")


def lasting(cx, count):
    """A very long life of an echo channel, in which transport failures, other echoes and closes happen."""
    st = Stack(cx)
    st.start(action=b"open-echo", port=12)
    for k in range(count):
        d = cx.cells("data", 2) if k in (0, count - 1) else b"%d" % k
        n = len(st.ws.sent)
        st.deliver(binary(ROUTE, 12, d))
        p = st.ws.sent[n:]
        cx.check(len(p) == 1 and p[0] == packet(SEND, 12, d), "what an echo channel receives is sent back on it, once")
        if k % 5 == 0:
            st.start(action=b"open-echo", port=1000 + k)
        if k % 10 == 0:
            st.close(1000 + k)
    cx.reach("lasting")


def plan(tier):
    t = tier == "thorough"
    two, any_ = [10, 99], [1, 9999 if t else 999]
    return {
        "bounds": "every history of %d steps (opening, data, closing) and of %d steps (also empty data, control messages, lost connections, failing "
                  "sends, ill-formed messages) on two channels, data of any content of 10-99 bytes (in short histories 1-%d); data of special "
                  "shapes and of up to 9,999,999 bytes; %d messages on one channel" % (5 if t else 4, 4 if t else 3, any_[1], 5000 if t else 1500),
        "outside": "longer histories; more channels; data that arrives before the echo is opened",
        "jobs": [
            {"fn": "history", "cases": [
                {"n": 5 if t else 4, "ops": ["open", "data", "close"], "lim": two},
                {"n": 3, "ops": ["open", "data", "close"], "lim": any_, "past": True},
                {"n": 4 if t else 3, "ops": ["open", "data", "close", "lost"], "lim": two},
                {"n": 4 if t else 3, "ops": ["data", "drop", "open", "empty"], "lim": two},
                {"n": 4 if t else 3, "ops": ["data", "control", "garbage", "lost"], "lim": two}],
             "reach": ["history", "echoed"], "weight": 2},
            {"fn": "shapes", "reach": ["shapes"]},
            {"fn": "lasting", "cases": [{"count": 5000 if t else 1500}], "reach": ["lasting"], "max_steps": 8000000},
        ]}
