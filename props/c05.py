"""C05: handshake, identity and ping protocol."""
from sxenv import wire
from sxenv.lib import caught, same_value
from props.common import *


def hello(identity):
    return packet(JOIN) if identity is None else packet(IDENTIFY, identity)


def history(cx, n, start, faults):
    """Any n events; after each, what was sent and which identity is held are compared with the specification."""
    boom = cx.fault("manager fails") if faults else False

    def fail(name):
        if boom:
            raise ValueError("x")

    m = Manager(fail)
    uuid = cx.cells("uuid", 2) if start == "uuid" else None
    client = new_client(cx, m, uuid=uuid)
    ws = client.websocket
    st = {"identity": uuid, "closed": False}
    lost = []

    def ws_send(w, data):
        if faults and cx.fault("transport"):
            lost.append(data)
            raise wire.WebSocketError("x")
    cx.st["ws_send"] = ws_send

    def sent_since(k):
        return len(ws.sent) + len(lost) - k

    def script():
        for i in range(n):
            ops = ["ready", "disconnected", "set", "ping", "other"]
            if not st["closed"]:
                ops.append("close")
            op = cx.pick("op", ops)
            k = len(ws.sent)
            j = len(lost)
            expected = []
            if op == "ready":
                expected = [hello(st["identity"])]
                yield event("ready")
                cx.reach("ready")
            elif op == "disconnected":
                st["identity"] = None
                yield event("disconnected")
            elif op == "set":
                new = cx.cells("id", 2)
                if not st["closed"]:
                    st["identity"] = new
                yield binary(SET_ID, new)
            elif op == "ping":
                data = cx.bytes("data", 1, 9)
                expected = [packet(PONG, data[:1024])]
                yield binary(PING, data)
                cx.reach("ping")
            elif op == "close":
                client.close()
                st["closed"] = True
                st["identity"] = None
            else:
                kind = cx.pick("kind", [[WELCOME], [LOG, b"x"], [0], [NOTIFY_OPEN, 3], [17, b"user"], [18, b"no"],
                                        [SET_ID], [SET_ID, 5], [IDENTIFY, b"zz"], [PONG, b"x"], [PING],
                                        [RESPONSE, 1, {b"uuid": b"zz"}]])
                yield binary(*kind)
            got = lost[j:] + ws.sent[k:]
            cx.check(len(got) == len(expected), "exactly the prescribed packets are sent after " + op)
            for a, b in zip(got, expected):
                cx.check(a == b, "the packet sent after %s is the prescribed one" % op)
            cx.check(same_value(client.identity, st["identity"]) if st["identity"] is not None
                     else client.identity is None, "the identity held after %s is the right one" % op)
            cx.observe(ws.sent)

    drive(cx, client, script())
    cx.reach("history")


def pongs(cx, many):
    """Pings of every length, interleaved with a handshake."""
    client = new_client(cx)
    ws = client.websocket

    def script():
        yield event("ready")
        expected = [packet(JOIN)]
        for i in range(many):
            data = cx.bytes("data", 0, 200000 if many == 1 else 1100)
            yield binary(PING, data)
            expected.append(packet(PONG, data[:1024]))
            if len(data) > 1024:
                cx.reach("cut")
        cx.check(len(ws.sent) == len(expected), "one pong for each ping and nothing else")
        for a, b in zip(ws.sent, expected):
            cx.check(a == b, "the pong carries the first 1024 bytes of its ping")

    drive(cx, client, script())


def long_life(cx, n):
    """Many connections in a row, with and without an identity, and pings in each."""
    m = Manager()
    client = new_client(cx, m)
    ws = client.websocket
    first = cx.cells("id", 2)

    def script():
        held = None
        for i in range(n):
            k = len(ws.sent)
            yield event("ready")
            cx.check(ws.sent[k:] == [hello(held)], "exactly the prescribed packet is sent after ready")
            if i % 3 != 2:
                held = first if i == 0 else b"id%d" % i
                yield binary(SET_ID, held)
                cx.check(client.identity == held, "the identity is the one the server gave")
            k = len(ws.sent)
            for j in range(1 + i % 5):
                d = first if j == 0 else b"p%d" % j
                yield binary(PING, d)
                cx.check(ws.sent[k + j:] == [packet(PONG, d)], "a ping is answered by one pong with its data")
            if i % 7 == 6:
                yield event("ready")        # the same connection announced again, as after an unnoticed drop
                cx.check(ws.sent[-1] == hello(held), "the identity held is sent")
            if i % 4 != 3:
                yield event("disconnected")
                held = None
                cx.check(client.identity is None, "a disconnect makes it forget the identity")
    drive(cx, client, script())
    cx.reach("long")


def plan(tier):
    t = tier == "thorough"
    return {
        "bounds": "every sequence of %d events (%d with transport and manager failures) out of: connected, disconnected, "
                  "set-identity (any two bytes), ping (1 to 9 arbitrary bytes), agent-side close and twelve "
                  "other packets, starting with and without an identity; single pings of 0 to 200,000 bytes and pairs of up to 1100; "
                  "a life of %d connections" % (4 if t else 3, 3 if t else 2, 4200 if t else 1100),
        "outside": "longer sequences",
        "jobs": [
            {"fn": "history", "cases": [{"n": 4 if t else 3, "start": s, "faults": False} for s in ("none", "uuid")] +
             [{"n": 3 if t else 2, "start": s, "faults": True} for s in ("none", "uuid")],
             "reach": ["history", "ready", "ping"], "weight": 3},
            {"fn": "long_life", "cases": [{"n": 4200 if t else 1100}], "reach": ["long"], "max_steps": 2000000},
            {"fn": "pongs", "cases": [{"many": 1}, {"many": 2}], "reach": ["cut"]},
        ]}
