"""Shared by the harnesses: the wire protocol from its definition, and a client driven over its websocket."""
from sx import rt
from sxenv import wire
from sxenv.lib import And, Not, Or, caught, same_value, Fake
from dataplicity.m2m.wsclient import WSClient

JOIN, IDENTIFY, WELCOME, LOG, SEND, ROUTE, PING, PONG, SET_ID = 1, 2, 3, 4, 5, 6, 7, 8, 9
REQ_CLOSE, NOTIFY_OPEN, INSTRUCTION, NOTIFY_CLOSE = 11, 14, 16, 19
ROUTE_CTRL, SEND_CTRL = 21, 22
OPEN_FILE, OPEN_FILE_R, CLOSE_FILE, READ_FILE, READ_FILE_R, SCAN, SCAN_R, WRITE_FILE, WRITE_FILE_R = \
    24, 25, 26, 27, 28, 29, 30, 31, 32
RESPONSE = 100


def num(v):
    return str(v).encode("ascii")


def enc(v):
    """bencode, from its definition (dictionaries with concrete keys)"""
    if isinstance(v, bytes):
        return num(len(v)) + b":" + v
    if isinstance(v, str):
        b = v.encode("utf-8")
        return num(len(b)) + b":" + b
    if isinstance(v, int):
        return b"i" + num(v) + b"e"
    if isinstance(v, (list, tuple)):
        r = b"l"
        for x in v:
            r = r + enc(x)
        return r + b"e"
    r = b"d"
    for k in sorted(v):
        r = r + enc(k) + enc(v[k])
    return r + b"e"


def packet(kind, *fields):
    return enc([kind] + list(fields))


def binary(kind, *fields):
    """The websocket event carrying a packet."""
    return wire.WsEvent("binary", packet(kind, *fields))


def event(name):
    return wire.WsEvent(name)


class Manager(Fake):
    """Records what the client asks of the manager; fail(name) may raise."""

    def __init__(self, fail=None):
        self.calls = []
        self.fail = fail

    def set_identity(self, identity):
        self.calls.append(("identity", identity))
        if self.fail is not None:
            self.fail("set_identity")

    def on_instruction(self, sender, data):
        self.calls.append(("instruction", sender, data))
        if self.fail is not None:
            self.fail("on_instruction")


class RemoteDir(Fake):
    def __init__(self, fail=None):
        self.calls = []
        self.fail = fail

    def _call(self, name, *args):
        self.calls.append((name,) + args)
        if self.fail is not None:
            self.fail(name)

    def on_open_remote_file(self, client, *args):
        self._call("open", *args)

    def on_read_remote_file(self, client, *args):
        self._call("read", *args)

    def on_close_remote_file(self, client, *args):
        self._call("close", *args)

    def on_write_remote_file(self, client, *args):
        self._call("write", *args)

    def scan(self, on_success=None, *a, **kw):
        self._call("scan", on_success)


def new_client(cx, manager=None, remote=None, **kw):
    return WSClient(manager or Manager(), "wss://example.org/m2m", remote or RemoteDir(), **kw)


def drive(cx, client, script):
    """Run the client's receive loop on the events `script` (a generator) yields.

    The generator goes on only when the client asks for the next event, so code after a yield sees the state the
    client has reached.  A loop that ends before the script does is a violation."""
    done = []

    def events(ws):
        for e in script:
            yield e
        done.append(1)

    cx.st["ws_events"] = events
    caught(client.run)
    cx.check(len(done) == 1, "the receive loop goes on while there are events")


ERRORS = [ValueError("x"), OSError(5, "x"), KeyError("x"), TypeError("x"), RuntimeError("x"), AttributeError("x"),
          AssertionError("x"), UnicodeDecodeError("utf-8", b"x", 0, 1, "x"), IndexError("x"),
          ZeroDivisionError("x"), wire.WebSocketError("x"), StopIteration(), Exception("x"), OSError("x"), Exception()]


class Odd(Exception):
    pass
