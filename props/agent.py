"""The whole agent: the real Client with its manager, connection and RPC, a server at the other end of the RPC."""
from props.c24 import Server, URL
from props.common import *
from sxenv.lib import And, Not, Or, caught, json_bytes, parse_json, same_value
from dataplicity.client import Client

SERIAL = "serial-1"
TOKEN = "token-1"


def new_agent(cx, serial=SERIAL, token=TOKEN, **kw):
    """A client with its receive thread not running (drive() runs it)."""
    cx.st["events"] = []
    c = Client(rpc_url=URL, m2m_url="wss://example.org/m2m/", serial=serial, auth_token=token,
               remote_directory_path="/remote", **kw)
    cx.st["queue"] = []
    cx.st["started"] = []
    return c


TAGS = "/home/dataplicity/dataplicity_tags"
DETAILS = ["device.set_agent_version", "device.set_ip_addresses", "device.set_machine_revision",
           "device.set_model_name", "device.set_os_version", "device.set_uname"]
DISK = ["device.set_disk_space"]
TAG = ["device.set_machine_defined_tags"]


ANSWERS = ["accept", "auth error", "call error", "auth missing", "call missing", "empty", "unreachable",
           "read fails", "not a list", "not json", "no ids", "both errors", "error not an object", "wrong ids"]


class Backend(object):
    """Answers batches of an authentication call and others; records what each request was and whether the server
    accepted it."""

    def __init__(self, cx, answers=ANSWERS, serial=SERIAL, token=TOKEN, errors=(OSError(111, "x"),), codes=(-32603,)):
        self.cx = cx
        self.answers = answers
        self.errors = errors
        self.codes = codes
        self.serial = serial
        self.token = token
        self.srv = Server(cx)
        self.srv.reply = self.reply
        self.log = []               # (calls by method, accepted, auth accepted)
        self.bad = None             # which of the calls is refused

    def reply(self, req):
        cx = self.cx
        self.srv.read_error = None
        cx.check(isinstance(req, list) and len(req) >= 1, "a report is one batch")
        auth = req[0]
        cx.check(auth["method"] == "device.check_auth", "a batch starts with the device's credentials")
        cx.check(auth["params"]["serial"] == self.serial and auth["params"]["auth_token"] == self.token and
                 auth["params"]["device_class"] == "tuxtunnel", "the credentials are the device's")
        calls = {}
        ids = []
        for c in req:
            cx.check(c["jsonrpc"] == "2.0" and "id" in c, "every call of a report is answered")
            cx.check(c["id"] not in ids, "every call of a batch has its own id")
            ids.append(c["id"])
        for c in req[1:]:
            cx.check(c["method"] not in calls, "nothing is reported twice in a batch")
            calls[c["method"]] = c["params"]
        how = cx.pick("answer", self.answers if isinstance(self.answers, list) else self.answers(calls))
        e = {"calls": calls, "accepted": how == "accept",
             "auth": how in ("accept", "call error", "call missing", "error not an object"), "how": how}
        e["params"] = how in ("accept", "auth error", "auth missing")
        self.log.append(e)
        if how == "unreachable":
            raise cx.pick("error", list(self.errors))
        if how == "read fails":
            self.srv.read_error = OSError(104, "x")
            return b""
        if how == "not json":
            return b"<html>"
        if how == "not a list":
            return json_bytes(cx.pick("body", [{"jsonrpc": "2.0", "id": None, "error": {"code": -32700,
                                                                                       "message": "x"}}, None, 4]))
        if how == "empty":
            return b"[]"
        bad = -1
        if self.bad is not None and how == "call error":
            bad = min(self.bad, len(req) - 1)
        elif how in ("call error", "call missing", "error not an object", "wrong ids") and len(req) > 1:
            bad = 1 + cx.choice("which", len(req) - 1)
        elif how in ("auth error", "auth missing", "call error", "call missing", "error not an object",
                     "wrong ids"):
            bad = 0
        if len(req) == 1 and how in ("call error", "call missing", "error not an object", "wrong ids"):
            e["auth"] = False
        out = []
        for i, c in enumerate(req):
            r = {"jsonrpc": "2.0", "id": c["id"], "result": None}
            if i == bad or how == "both errors":
                if how in ("auth missing", "call missing"):
                    continue
                if how == "wrong ids":
                    r["id"] = "x"
                else:
                    del r["result"]
                    r["error"] = "bad" if how == "error not an object" else {
                        "code": cx.pick("code", list(self.codes)), "message": "x"}
            if how == "no ids":
                del r["id"]
            out.append(r)
        return json_bytes(out)
