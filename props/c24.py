"""C24: a remote call returns only the answer to that call."""
from sxenv import wire
from sxenv.lib import And, Not, Or, caught, json_bytes, parse_json, same_value
from dataplicity import jsonrpc
from dataplicity.jsonrpc import (JSONRPC, JSONRPCError, ProtocolError, InvalidResponseError, ServerUnreachableError,
                                 RemoteError, RemoteMethodError)

URL = "https://example.org/jsonrpc/"
STANDARD = (-32700, -32600, -32601, -32602, -32603)


class Server(object):
    """The other end: records requests, answers with reply(request)."""

    def __init__(self, cx):
        self.cx = cx
        self.requests = []
        self.streams = []
        self.reply = None           # reply(request) -> body bytes, or raises
        self.read_error = None
        self.close_error = None
        cx.st["urlopen"] = self.open

    def open(self, url, data):
        cx = self.cx
        cx.check(url == URL, "the request goes to the server's URL")
        req = parse_json(data.decode("utf-8"))
        self.requests.append(req)
        body = self.reply(req)
        s = Body(body, self)
        self.streams.append(s)
        return s


class Body(wire.Response):
    def __init__(self, body, server):
        wire.Response.__init__(self, body)
        self.server = server

    def read(self, n=-1):
        if self.server.read_error is not None:
            raise self.server.read_error
        return wire.Response.read(self, n)

    def close(self):
        self.closed = True
        if self.server.close_error is not None:
            raise self.server.close_error


def remote_error(cx, e, method, code, message):
    """e is the error of its kind, with the server's code and message."""
    cx.check(isinstance(e, JSONRPCError), "an error response raises an error of the remote kind")
    std = code is not None and not isinstance(code, str) and code in STANDARD
    cx.check(isinstance(e, RemoteError) == std, "standard codes are one kind")
    cx.check(isinstance(e, RemoteMethodError) == (not std), "all other codes are another kind")
    cx.check(e.code == code, "the error has the server's code")
    cx.check(e.method == method, "the error names the method")
    if message is not None:
        cx.check(e.message == message and str(e) == message, "the error has the server's message")
    else:
        cx.check(isinstance(e.message, str) and len(e.message) > 0, "an error without message gets one")


def respond(cx, req, shape, st):
    """A response of the given shape; st receives what it means."""
    r = {}
    if shape["jsonrpc"] == "ok":
        r["jsonrpc"] = "2.0"
    elif shape["jsonrpc"] == "any":
        r["jsonrpc"] = cx.chars("version", 3, 32, 126)
    elif shape["jsonrpc"] == "other":
        r["jsonrpc"] = cx.pick("version", ["1.0", 2, 2.0, None, "2", ["2.0"]])
    if shape["id"] == "ok":
        r["id"] = req["id"]
    elif shape["id"] == "any":
        r["id"] = cx.int("id", -5, 50)
    elif shape["id"] == "other":
        r["id"] = cx.pick("id", [None, "2", "", [2], {"id": 2}, 2.5])
    if shape["result"]:
        r["result"] = st["result"] = cx.int("result", -10 ** 12, 10 ** 12) if shape["result"] == "int" else \
            cx.pick("result", [None, "text", [1, {"a": None}], True, {"error": 1}])
    e = shape["error"]
    if e == "dict":
        r["error"] = {}
        code = cx.pick("code", ["any", "text", "none"])
        if code == "any":
            r["error"]["code"] = st["code"] = cx.int("code", -40000, 40000)
        elif code == "text":
            r["error"]["code"] = st["code"] = "bad"
        if cx.fault("message"):
            r["error"]["message"] = st["message"] = cx.chars("message", 3, 32, 126)
        if cx.fault("data"):
            r["error"]["data"] = {"x": 1}
    elif e == "other":
        r["error"] = cx.pick("error", [None, "bad", 7, [], False, ["code"]])
    st["body"] = r
    return r


def answered(cx, jsonrpc, id, result, error):
    """One call, and every response of a shape; then another call."""
    srv = Server(cx)
    rpc = JSONRPC(URL)
    st = {}
    shape = {"jsonrpc": jsonrpc, "id": id, "result": result, "error": error}
    srv.reply = lambda req: json_bytes(respond(cx, req, shape, st))
    a = cx.int("param", -1000, 1000)
    r, e = caught(rpc.call, "device.method", foo=a, bar="x")
    cx.check(len(srv.requests) == 1, "one request is sent for one call")
    req = srv.requests[0]
    cx.check(isinstance(req, dict) and sorted(req) == ["id", "jsonrpc", "method", "params"] and
             req["jsonrpc"] == "2.0" and req["method"] == "device.method", "the request is a JSON-RPC 2.0 call")
    cx.check(same_value(req["params"], {"foo": a, "bar": "x"}), "the request carries the parameters")
    cx.check(srv.streams[0].closed, "the response stream is closed")
    b = st["body"]
    valid = "jsonrpc" in b and b["jsonrpc"] == "2.0" and "id" in b and b["id"] == req["id"]
    cx.observe(e is None, type(e).__name__)
    if not valid:
        cx.check(isinstance(e, ProtocolError), "a response that is not the answer to the call is a protocol error")
        cx.reach("mismatch")
    elif "error" not in b:
        cx.check(e is None, "the answer to the call is returned")
        cx.check(same_value(r, b.get("result")), "the result is the one the server sent")
        cx.reach("result")
    elif isinstance(b["error"], dict):
        remote_error(cx, e, "device.method", b["error"].get("code"), b["error"].get("message"))
        cx.check(e.data == b["error"].get("data"), "the error has the server's data")
        cx.reach("error")
    else:
        cx.check(isinstance(e, (ProtocolError, JSONRPCError)), "a malformed error is an error of its kind")
        cx.reach("bad error")
    good(cx, srv, rpc, req["id"])


def good(cx, srv, rpc, *before):
    """A further call works, with a fresh id."""
    n = len(srv.requests)
    srv.read_error = srv.close_error = None
    srv.reply = lambda req: json_bytes({"jsonrpc": "2.0", "id": req["id"], "result": 77})
    r, e = caught(rpc.call, "again")
    cx.check(e is None and r == 77, "a failed call affects no later call")
    cx.check(len(srv.requests) == n + 1 and srv.requests[n]["method"] == "again", "one request is sent for one call")
    cx.check(srv.streams[-1].closed, "the response stream is closed")
    for b in before:
        cx.check(srv.requests[n]["id"] != b, "every call has a fresh id")


def not_an_object(cx):
    """JSON that is not an object."""
    srv = Server(cx)
    rpc = JSONRPC(URL)
    v = cx.pick("value", ["list", "text", "jsonrpc id", "number", "null", "true", "pair", "empty"])
    body = {"list": [], "text": "abc", "jsonrpc id": "jsonrpc id", "number": 3, "null": None, "true": True,
            "pair": ["jsonrpc", "id"], "empty": {}}[v]
    srv.reply = lambda req: json_bytes(body)
    r, e = caught(rpc.call, "m", x=1)
    cx.check(isinstance(e, ProtocolError), "a response that is not an object is a protocol error")
    cx.check(srv.streams[0].closed, "the response stream is closed")
    good(cx, srv, rpc, srv.requests[0]["id"])
    cx.reach("not an object")


def undecodable(cx):
    """Bytes that are not JSON, or not text."""
    srv = Server(cx)
    rpc = JSONRPC(URL)
    body = cx.pick("body", [b"", b"<html>", b"{", b"\xff\xfe", b"{\"jsonrpc\": \"2.0\", \"id\": 2, \"result\": 1",
                            b"nul", b"\xc3", b"[1,]"])
    srv.reply = lambda req: body
    r, e = caught(rpc.call, "m", x=1)
    if body in (b"\xff\xfe", b"\xc3"):
        cx.check(isinstance(e, (ServerUnreachableError, InvalidResponseError)),
                 "bytes that are not text raise an error of their kind")
    else:
        cx.check(isinstance(e, InvalidResponseError), "a response that is not JSON is an invalid response")
    cx.check(srv.streams[0].closed, "the response stream is closed")
    good(cx, srv, rpc, srv.requests[0]["id"])
    cx.reach("undecodable")


def not_text(cx, n):
    """The right answer, but with bytes that are not text in its result."""
    srv = Server(cx)
    rpc = JSONRPC(URL)
    bad = cx.cells("bytes", n, 128, 255)
    good_text = And(n == 2, bad[0] >= 0xc2, bad[0] <= 0xdf, bad[-1] <= 0xbf)
    cx.assume(Not(good_text))
    srv.reply = lambda req: (b'{"jsonrpc": "2.0", "id": ' + str(req["id"]).encode("ascii") + b', "result": "' + bad +
                             b'"}')
    r, e = caught(rpc.call, "m", x=1)
    cx.check(isinstance(e, (ServerUnreachableError, InvalidResponseError)),
             "bytes that are not text raise an error of their kind")
    cx.check(srv.streams[0].closed, "the response stream is closed")
    good(cx, srv, rpc, srv.requests[0]["id"])
    cx.reach("not text")


def many(cx, batches, calls):
    """Ids stay fresh in a long life."""
    srv = Server(cx)
    rpc = JSONRPC(URL)
    srv.reply = lambda req: b"[]"
    used = set()
    for i in range(batches):
        b = rpc.batch()
        for k in range(calls):
            b.call("m")
        caught(b.send)
        for c in srv.requests.pop():
            cx.check(c["id"] not in used, "every call has a fresh id")
            used.add(c["id"])
    good(cx, srv, rpc)
    cx.check(srv.requests[-1]["id"] not in used, "every call has a fresh id")
    cx.reach("many")


def unreachable(cx):
    """Failures to connect, to read and to close."""
    srv = Server(cx)
    rpc = JSONRPC(URL)
    err = cx.pick("error", [OSError(111, "refused"), ValueError("x"), KeyError("x"), EOFError(), RuntimeError("x"),
                            UnicodeDecodeError("utf-8", b"x", 0, 1, "x"), StopIteration()])
    where = cx.pick("where", ["open", "read", "close"])

    def reply(req):
        if where == "open":
            raise err
        return json_bytes({"jsonrpc": "2.0", "id": req["id"], "result": 1})

    srv.reply = reply
    if where == "read":
        srv.read_error = err
    if where == "close":
        srv.close_error = err
    r, e = caught(rpc.call, "m", x=1)
    if where != "close":
        cx.check(isinstance(e, ServerUnreachableError), "an unreachable server raises the error of that kind")
        cx.check(e.url == URL, "the error names the server")
    else:
        cx.check(e is None and r == 1 or isinstance(e, ServerUnreachableError), "a failing close is no wrong result")
    for s in srv.streams:
        cx.check(s.closed, "the response stream is closed")
    good(cx, srv, rpc)
    cx.reach(where)


def notifications(cx):
    """A notification is one request without an id, and its failures are of the same kinds."""
    srv = Server(cx)
    rpc = JSONRPC(URL)
    bad = cx.fault("unreachable")

    def reply(req):
        if bad:
            raise OSError(111, "refused")
        return b""

    srv.reply = reply
    r, e = caught(rpc.notify, "m", x=1)
    cx.check(len(srv.requests) == 1 and "id" not in srv.requests[0] and srv.requests[0]["method"] == "m" and
             srv.requests[0]["jsonrpc"] == "2.0" and srv.requests[0]["params"] == {"x": 1}, "one notification is sent")
    cx.check(isinstance(e, ServerUnreachableError) if bad else e is None, "an unreachable server raises its kind")
    for s in srv.streams:
        cx.check(s.closed, "the response stream is closed")
    good(cx, srv, rpc)
    cx.reach("notified")


def ids(cx, n):
    """Every call has its own id, in any mixture of calls, batches and failures."""
    srv = Server(cx)
    rpc = JSONRPC(URL)
    fail = [False]

    def reply(req):
        if fail[0]:
            raise OSError(111, "refused")
        if isinstance(req, list):
            return json_bytes([])
        return json_bytes({"jsonrpc": "2.0", "id": req["id"], "result": 1})

    srv.reply = reply
    for i in range(n):
        fail[0] = cx.fault("unreachable")
        k = cx.pick("kind", ["call", "batch", "notify"])
        if k == "call":
            caught(rpc.call, "m")
        elif k == "notify":
            caught(rpc.notify, "m")
        else:
            def f():
                with rpc.batch() as b:
                    b.call("m")
                    b.call("n")
            caught(f)
    used = []
    for q in srv.requests:
        for c in (q if isinstance(q, list) else [q]):
            if "id" in c:
                cx.check(c["id"] is not None and c["id"] not in used, "every call has a fresh id")
                used.append(c["id"])
    cx.reach("ids")


def plan(tier):
    t = tier == "thorough"
    shapes = []
    for j in ("ok", "any", "other", "absent"):
        for i in ("ok", "any", "other", "absent"):
            for r in ("int", "other", None):
                for e in ("absent", "dict", "other"):
                    odd = (j != "ok") + (i != "ok") + (e == "other")
                    if odd <= (3 if t else 1) or (j in ("any", "other") and i == "any" and r == "int"):
                        shapes.append({"jsonrpc": j, "id": i, "result": r, "error": e})
    return {
        "bounds": "every response object over the members jsonrpc (right, any three characters, other types, absent), "
                  "id (right, any integer of a range, other types, absent), result (any integer, other types, absent) "
                  "and error (any code and message, any of them absent, not an object, absent); other JSON values; "
                  "bodies that are not JSON; errors of connecting, reading and closing; each followed by another "
                  "call; histories of %d calls, notifications and batches; results with any one or two bytes that are not UTF-8; one "
                  "life of %d calls" % (4 if t else 3, 70000),
        "outside": "calls made by several threads on one object; error codes that are arrays or objects; parameters "
                   "that are not JSON",
        "jobs": [
            {"fn": "answered", "cases": shapes},
            {"fn": "not_an_object", "reach": ["not an object"]},
            {"fn": "undecodable", "reach": ["undecodable"]},
            {"fn": "not_text", "cases": [{"n": 1}, {"n": 2}], "reach": ["not text"]},
            {"fn": "many", "cases": [{"batches": 14, "calls": 5000}], "reach": ["many"],
             "max_steps": 2000000},
            {"fn": "unreachable", "reach": ["open", "read", "close"]},
            {"fn": "notifications", "reach": ["notified"]},
            {"fn": "ids", "cases": [{"n": 4 if t else 3}], "reach": ["ids"]},
        ]}
