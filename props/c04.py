"""C04: no inbound message or handler failure stops the agent listening."""
from sx import rt
from sxenv import wire, lib
from sxenv.lib import caught, same_value
from props.common import *
from dataplicity.m2m import bencode

# number -> field types, as in the protocol
P_KINDS = {
    0: "", 1: "", 2: "b", 3: "", 4: "b", 5: "ib", 6: "ib", 7: "b", 8: "b", 9: "b", 11: "i", 13: "", 14: "i", 15: "bb",
    16: "bd", 17: "b", 18: "b", 19: "i", 20: "", 21: "ib", 22: "ib", 24: "bb", 25: "biib", 26: "b", 27: "bii",
    28: "biibib", 29: "", 30: "b", 31: "bbbibi", 32: "biibib", 100: "id", 101: "ibibibi", 102: "ibd", 103: "ibb",
    104: "ib", 106: "ibb", 107: "il", 108: "il", 109: "iib", 110: "ibbbb", 111: "ibb", 200: "ibbibi", 201: "bb",
    202: "b", 203: "bb", 204: "bi",
}
P_HANDLED = [6, 7, 9, 16, 19, 21, 24, 27, 29, 31, 100]
P_QUIET = [4, 14, 17, 26]


def of_type(v, t):
    if t == "i":
        return isinstance(v, int)
    if t == "b":
        return isinstance(v, bytes)
    return isinstance(v, dict) if t == "d" else isinstance(v, list)


def ill_formed(data):
    """Is this not a packet of the protocol?"""
    v, e = caught(bencode.decode, data)
    if e is not None or not isinstance(v, list) or not v or not isinstance(v[0], int):
        return True
    for k in P_KINDS:
        if v[0] == k:
            ts = P_KINDS[k]
            if len(v) - 1 < len(ts):
                return True
            for t, x in zip(ts, v[1:]):
                if not of_type(x, t):
                    return True
            return False
    return True


class World(object):
    def __init__(self, cx, fail=None):
        self.cx = cx
        self.manager = Manager(fail)
        self.remote = RemoteDir(fail)
        self.client = new_client(cx, self.manager, self.remote, uuid=b"me")
        self.called = []

        def on_data(d):
            self.called.append("data")
            if fail is not None:
                fail("on_data")

        def on_close():
            self.called.append("close")
            if fail is not None:
                fail("on_close")

        def on_control(d):
            self.called.append("control")
            if fail is not None:
                fail("on_control")

        def on_result(r):
            self.called.append("result")
            if fail is not None:
                fail("callback")

        self.client.get_channel(1).set_callbacks(on_data=on_data, on_close=on_close, on_control=on_control)
        self.client.add_callback(1, on_result)

    def nothing_happened(self, what):
        cx = self.cx
        cx.check(self.client.websocket.sent == [], what + " sends nothing")
        cx.check(list(self.client.open_channels) == [1], what + " opens or closes no channel")
        cx.check(self.manager.calls == [] and self.remote.calls == [] and self.called == [],
                 what + " causes no action")
        cx.check(self.client.identity == b"me", what + " leaves the identity unchanged")
        cx.check(not cx.st.get("sys") and not cx.st.get("started"), what + " starts nothing")

    def alive(self):
        """A well-formed message is handled normally (driven as events)."""
        cx = self.cx
        n = len(self.client.websocket.sent)
        yield binary(PING, b"hi")
        cx.check(self.client.websocket.sent[n:] == [packet(PONG, b"hi")], "the next message is handled normally")
        k = len(self.remote.calls)
        yield binary(CLOSE_FILE, b"u")
        cx.check(self.remote.calls[k:] == [("close", b"u")], "the next message is handled normally")


def garbage(cx, prefix, n, suffix):
    """Arbitrary bytes in one message."""
    w = World(cx)
    data = prefix.encode("ascii") + cx.cells("b", n) + suffix.encode("ascii")

    def script():
        yield wire.WsEvent("binary", data)
        if ill_formed(data):
            w.nothing_happened("a malformed message")
            cx.reach("malformed")
        for e in w.alive():
            yield e

    drive(cx, w.client, script())
    cx.reach("garbage")


P_VALUES = {"i": 5, "b": b"xy", "l": [b"xy", 1], "d": {b"k": 1}}


def value(cx, t):
    if t == "i":
        return cx.int("i", 0, 9)
    if t == "b":
        return cx.cells("b", 2)
    if t == "l":
        return [cx.cells("b", 1)]
    return {b"k": cx.int("n", 0, 9)}


def illtyped(cx, kind):
    """A packet of this kind with a missing or wrongly typed field."""
    w = World(cx)
    ts = P_KINDS[kind]
    bad = cx.choice("field", len(ts))
    fs = [value(cx, t) for t in ts]
    number = kind
    how = cx.pick("how", ["missing", "wrong"] + (["number"] if bad == 0 else []))
    if how == "missing":
        fs = fs[:bad]
    elif how == "number":            # the fields are fine, but the number is no integer
        number = cx.pick("number", [b"%d" % kind, [kind], {b"t": kind}])
    else:
        ty = cx.pick("wrong", [t for t in "ibld" if t != ts[bad]])
        fs[bad] = {"i": 0, "b": b"", "l": [], "d": {}}[ty] if cx.fault("empty") else value(cx, ty)
    data = enc([number] + fs)

    def script():
        yield wire.WsEvent("binary", data)
        w.nothing_happened("an ill-typed message")
        for e in w.alive():
            yield e

    drive(cx, w.client, script())
    cx.reach("illtyped")


def unknown(cx):
    """A message whose number is not a packet number, or that is no packet at all."""
    w = World(cx)
    if cx.fault("shape"):
        data = cx.pick("data", [b"", b"i5e", b"3:abc", b"d1:a1:be", b"le", b"ll1:aee", b"l4:pinge", b"ld1:ai1eee",
                                b"li7e2:hi", b"\xff\xfe", b"l" * 40, b"di1e1:ae", b"dle1:ae", b"dd1:ai1eei1ee",
                                b"i--5e", b"i5", b"i\xb2e", b"99999999999:x", b"e", b"lli6eee", b"-1:", b"li-7ee",
                                b"l1:7e", b"li6e1:1e"])
    else:
        n = cx.int("n", -120, 1200)
        for k in P_KINDS:
            cx.assume(n != k)
        data = enc([n] + cx.pick("tail", [[], [b"hi"], [1, b"hi"], [b"a", b"b"], [b"s", {b"action": b"sync"}]]))

    def script():
        yield wire.WsEvent("binary", data)
        w.nothing_happened("an unknown message")
        for e in w.alive():
            yield e

    drive(cx, w.client, script())
    cx.reach("unknown")


def handler(cx, kind):
    """The code reacting to a well-formed message raises."""
    err = cx.pick("error", ERRORS)
    raised = []

    def fail(name):
        if name != "close":
            raised.append(name)
            raise err

    w = World(cx, fail)
    ts = P_KINDS[kind]
    fs = []
    for t in ts:
        fs.append({"i": 1, "b": cx.cells("b", 2), "d": {b"k": 1}, "l": []}[t])
    if kind == CLOSE_FILE:
        w.remote.fail = None
    if cx.fault("transport"):
        def ws_send(ws, data):
            if len(raised) == 0:
                raised.append("send")
                raise err if cx.fault("other") else wire.WebSocketError("x")
        cx.st["ws_send"] = ws_send

    def script():
        yield wire.WsEvent("binary", enc([kind] + fs))
        raised.append("done")
        if cx.fault("also a bad one"):
            yield wire.WsEvent("binary", enc([kind]) + b"!")
        for e in w.alive():
            yield e

    drive(cx, w.client, script())
    cx.reach("handler")
    if len(raised) > 1:
        cx.reach("raised")


P_EVENTS = ["ready", "disconnected", "poll", "connecting", "connected", "connect_fail", "rejected", "protocol_error",
            "unresponsive", "text", "ping", "pong", "closing", "closed", "back_off", "some new event"]


def events(cx, n):
    """Connection events in any order, with failing code behind them."""
    err = cx.pick("error", [ValueError("x"), OSError(5, "x"), wire.WebSocketError("x")])
    mode = cx.pick("fails", ["manager", "callbacks", "send"])

    def fail(name):
        if mode == ("manager" if name == "set_identity" else "callbacks") and name != "close":
            raise err

    w = World(cx, fail)
    armed = [True]

    def ws_send(ws, data):
        if armed[0] and mode == "send":
            raise err
    cx.st["ws_send"] = ws_send

    def script():
        for i in range(n):
            name = cx.pick("event", P_EVENTS)
            e = wire.WsEvent(name, b"data" if name in ("ping", "pong") else "data")
            yield e
        armed[0] = False
        for e in w.alive():
            yield e

    drive(cx, w.client, script())
    cx.reach("events")


def flood(cx, n):
    """Many messages in a row that are malformed, unknown, ill-typed or make the code behind them fail."""
    err = cx.pick("error", [ValueError("x"), OSError(5, "x"), wire.WebSocketError("x")])
    armed = []

    def fail(name):
        if armed:
            raise err

    w = World(cx, fail)
    data = cx.pick("data", [b"", b"le", b"i5", b"li7e", enc([7]), enc([7, 5]), enc([999, b"x"]), enc([16, b"s"]),
                            enc([6, 1, b"data"]), enc([16, b"s", {b"action": b"sync"}]), enc([29]), enc([9, b"id"]),
                            enc([27, b"u", 0, 5]), "disconnected", "poll", "ready", "closed", "protocol_error"])

    def ws_send(ws, d):
        if armed:
            raise err
    cx.st["ws_send"] = ws_send

    def script():
        armed.append(1)
        for i in range(n):
            yield wire.WsEvent("binary", data) if isinstance(data, bytes) else event(data)
        del armed[:]
        for e in w.alive():
            yield e

    drive(cx, w.client, script())
    cx.reach("flood")


def plan(tier):
    t = tier == "thorough"
    k = 1 if t else 0
    fr = [["", 3 + k, ""], ["l", 2 + k, "e"], ["li", 2, "ee"], ["li7e", 2 + k, "e"], ["li9e2:", 2, "e"], ["", 1, "e"],
          ["li19e", 3, "e"], ["li6ei1e", 2, "e"], ["i", 2, ""], ["d", 3, "i1ee"], ["di1e", 1, "ee"],
          ["ld", 2, "i1eee"], ["li7e1", 2, "e"], ["li", 1, "ei1ee"], ["li", 2, "e1:xe"]]
    return {
        "bounds": "every message of up to %d arbitrary bytes and %d frames of arbitrary bytes; every packet kind with "
                  "each field missing or of each wrong wire type; all packet numbers from -120 to 1200 outside the "
                  "protocol; every handled kind with each of 15 exception types raised by the code behind it or by "
                  "the transport; every sequence of %d of %d connection events with failing code behind them; each "
                  "followed by two well-formed messages; 18 such messages and events, each %d times in a row" % (3 + k, len(fr), 2 + k, len(P_EVENTS), 4200 if t else 1100),
        "outside": "longer arbitrary messages, exceptions that are not subclasses of Exception",
        "jobs": [
            {"fn": "garbage", "cases": [{"prefix": a, "n": n, "suffix": b} for a, n, b in fr], "weight": 3,
             "hang": True, "max_steps": 2000, "reach": ["garbage"]},
            {"fn": "illtyped", "cases": [{"kind": k} for k in sorted(P_KINDS) if P_KINDS[k]], "reach": ["illtyped"]},
            {"fn": "unknown", "reach": ["unknown"], "weight": 2},
            {"fn": "handler", "cases": [{"kind": k} for k in P_HANDLED], "reach": ["handler", "raised"],
             "weight": 2},
            {"fn": "handler", "cases": [{"kind": k} for k in P_QUIET], "reach": ["handler"]},
            {"fn": "flood", "cases": [{"n": 4200 if t else 1100}], "reach": ["flood"], "hang": True, "max_steps": 20000000},
            {"fn": "events", "cases": [{"n": 2 + k}], "reach": ["events"], "weight": 2},
        ]}
