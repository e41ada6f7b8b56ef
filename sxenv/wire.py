"""Models of lomond (the websocket), JSON, HTTP and regular expressions."""
import json as _json
from sx import rt
from sx.rt import Unsupported


# ---------------------------------------------------------------- lomond
class WebSocketError(Exception):
    def __init__(self, msg="websocket error", *args, **kwargs):
        Exception.__init__(self, msg)


class HandshakeError(WebSocketError):
    pass


class ProtocolError(WebSocketError):
    pass


class ConnectFail(WebSocketError):
    pass


class TransportFail(WebSocketError):
    pass


class WebSocketUnavailable(WebSocketError):
    pass


class WebSocketClosed(WebSocketError):
    pass


class WebSocketClosing(WebSocketError):
    pass


class WebSocket(rt.Model):
    """Records what is sent.  cx.st['ws_send'](ws, data) may raise WebSocketError or interleave other events."""

    def __init__(self, url, proxies=None, protocols=None, agent=None, compress=False):
        self.url = url
        self.agent = agent
        self.sent = []
        self.closed = False
        self.entered = False
        self.busy = None
        h = rt.cx.st.get("ws_new")
        if h is not None:
            h(self)

    @property
    def is_closed(self):
        return self.closed

    @property
    def is_closing(self):
        return self.closed

    @property
    def is_active(self):
        return not self.closed

    def __enter__(self):
        self.entered = True
        return self

    def __exit__(self, *a):
        self.closed = True

    def send_binary(self, data, compress=True):
        if not isinstance(data, bytes):
            raise TypeError("data argument must be bytes")
        h = rt.cx.st.get("ws_send")
        if h is not None:
            h(self, data)
        self.sent.append(data)

    def close(self, code=1000, reason=b"goodbye"):
        self.closed = True
        h = rt.cx.st.get("ws_close")
        if h is not None:
            h(self)

    def connect(self, **kw):
        raise Unsupported("WebSocket.connect")


def persist(websocket, poll=5, min_wait=5, max_wait=30, ping_rate=30, ping_timeout=None, exit_event=None):
    rt.cx.st["persist"] = {"poll": poll, "min_wait": min_wait, "max_wait": max_wait, "ping_rate": ping_rate,
                           "ping_timeout": ping_timeout}
    h = rt.cx.st.get("ws_events")
    if h is None:
        raise Unsupported("no websocket events")
    return h(websocket)


class WsEvent(object):
    def __init__(self, name, data=None):
        self.name = name
        self.data = data

    def __repr__(self):
        return "<event %s>" % self.name


# ---------------------------------------------------------------- JSON
def _norm(o, path=()):
    """JSON value of an object, as json.loads(json.dumps(o)) gives it."""
    if o is None or isinstance(o, (bool, int, float, str)):
        return o
    if isinstance(o, (list, tuple)):
        return [_norm(x) for x in o]
    if isinstance(o, dict):
        out = {}
        for k, v in o.items():
            if isinstance(k, bool) or k is None:
                k = {True: "true", False: "false", None: "null"}[k]
            elif isinstance(k, int):
                k = str(k)
            elif not isinstance(k, str):
                raise TypeError("keys must be str, int, float, bool or None, not " + type(k).__name__)
            out[k] = _norm(v)
        return out
    raise TypeError("Object of type %s is not JSON serializable" % type(o).__name__)


def dumps(o, **kw):
    if rt.symbolic:
        from sx.values import has_sym, token, SymStr, key_of
        if has_sym(o, 8):
            n = _norm(o)
            return token(SymStr, ("json", key_of(n), tuple(sorted(repr(x) for x in kw.items()))), n,
                         _evaljson(n), 2, 400)
    return _json.dumps(o, **kw)


def _evaljson(n):
    from sxenv import symjson
    return symjson.evaluator(n)


def _copy(o):
    if isinstance(o, dict):
        out = {}
        for k, v in o.items():
            out[k] = _copy(v)
        return out
    if isinstance(o, list):
        return [_copy(x) for x in o]
    return o


class _Absent(object):
    pass


def loads(s, **kw):
    if rt.symbolic:
        from sxenv.lib import token_payload
        from sx.values import is_sym
        if is_sym(s):
            p = token_payload(s)
            if p is None:
                h = rt.cx.st.get("json_loads")
                if h is not None:
                    return h(s)
                raise Unsupported("JSON text with symbolic characters")
            return _copy(p)
    return _json.loads(s, **kw)


def dump(o, fp, **kw):
    fp.write(dumps(o, **kw))


def load(fp, **kw):
    return loads(fp.read(), **kw)


class JSONEncoder(object):
    pass


# ---------------------------------------------------------------- HTTP
class Request(rt.Model):
    def __init__(self, url, data=None, headers=None, origin_req_host=None, unverifiable=False, method=None):
        self.full_url = url
        self.data = data
        self.headers = dict(headers or {})
        self.method = method

    def add_header(self, k, v):
        self.headers[k] = v


def urlopen(url, data=None, timeout=None, **kw):
    if isinstance(url, Request):
        if data is None:
            data = url.data
        url = url.full_url
    h = rt.cx.st.get("urlopen")
    if h is None:
        raise Unsupported("no HTTP environment")
    return h(url, data)


class Response(rt.Model):
    def __init__(self, body, code=200):
        self.body = body
        self.code = code
        self.status = code
        self.closed = False

    def read(self, n=-1):
        if n is not None and n >= 0:
            r = self.body[:n]
            self.body = self.body[n:]
            return r
        r = self.body
        self.body = b""
        return r

    def getcode(self):
        return self.code

    def info(self):
        return {}

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def install(reg, w):
    import urllib.request
    import urllib.error
    import urllib.parse
    import re
    reg("lomond", {"WebSocket": WebSocket})
    reg("lomond.constants", {"USER_AGENT": "Lomond/0.3.3"})
    reg("lomond.persist", {"persist": persist})
    reg("lomond.errors", {"WebSocketError": WebSocketError, "HandshakeError": HandshakeError,
                          "ProtocolError": ProtocolError, "ConnectFail": ConnectFail, "TransportFail": TransportFail,
                          "WebSocketUnavailable": WebSocketUnavailable, "WebSocketClosed": WebSocketClosed,
                          "WebSocketClosing": WebSocketClosing})
    reg("lomond.events", {})
    reg("json", {"dumps": dumps, "loads": loads, "dump": dump, "load": load,
                 "JSONDecodeError": _json.JSONDecodeError}, _json)
    reg("urllib", {})
    reg("urllib.request", {"urlopen": urlopen, "Request": Request, "HTTPError": urllib.error.HTTPError},
        urllib.request)
    w.stubs["urllib.parse"] = urllib.parse
    w.stubs["urllib.error"] = urllib.error
    w.stubs["urllib"].__dict__["parse"] = urllib.parse
    w.stubs["urllib"].__dict__["error"] = urllib.error
    if w.symbolic:
        from sx import rx
        reg("re", {"compile": rx.compile, "split": rx.split, "sub": rx.sub, "findall": rx.findall,
                   "finditer": rx.finditer, "match": rx.match, "search": rx.search, "fullmatch": rx.fullmatch,
                   "escape": re.escape, "error": re.error}, re,
            ("IGNORECASE", "MULTILINE", "DOTALL", "VERBOSE", "ASCII", "UNICODE", "I", "M", "S", "X", "A", "U"))
