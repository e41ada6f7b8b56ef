"""C25: batch results and errors go to the call they belong to."""
from props.c24 import *


def entry(cx, i, ids, kinds, idspace):
    """One entry of the server's answer: (value, id or None, kind)"""
    k = cx.pick("entry", kinds)
    if k == "junk":
        return cx.pick("junk", [None, 3, "id", [], ["id"], True]), "no", k
    r = {"jsonrpc": "2.0"}
    which = cx.choice("for", len(ids) + len(idspace))
    if which < len(ids):
        i_ = r["id"] = ids[which]
    else:
        w = idspace[which - len(ids)]
        if w == "absent":
            i_ = "no"
        elif w == "null":
            i_ = r["id"] = None
        elif w == "other":
            i_ = r["id"] = "somebody else"
        elif w == "any":
            i_ = r["id"] = cx.int("id", 0, 9)
        else:
            i_ = "no"
            r["id"] = [1]
    if k == "result":
        r["result"] = cx.int("result", -10 ** 9, 10 ** 9)
    elif k == "no result":
        pass
    elif k == "null":
        r["result"] = None
    elif k == "error":
        r["error"] = {"code": cx.int("code", -40000, 40000), "message": cx.chars("m", 2, 97, 122)}
    elif k == "empty error":
        r["error"] = {}
    elif k == "odd error":
        r["error"] = cx.pick("odd error", [None, "denied", 5, True, ["x"]])
    elif k == "both":
        r["error"] = {"code": 5, "message": "mm"}
        r["result"] = 8
    return r, i_, k


def matches(cx, e, call, given):
    """Is what was given (value, exception) what the entry says?"""
    v, x = given
    r, i, k = e
    if "error" in r:
        return x is not None
    return x is None and same_value(v, r.get("result"))


def route(cx, calls, entries, kinds, idspace, own=0):
    """A batch of calls, and any answer to it."""
    srv = Server(cx)
    rpc = JSONRPC(URL)
    ids = [["first", 7, "third", 0][i] for i in range(calls)]
    answer = []
    sent = []

    def reply(req):
        sent.append(req)
        for i in range(entries):
            answer.append(entry(cx, i, ids, kinds, idspace))
        return json_bytes([a[0] for a in answer])

    srv.reply = reply
    vals = [cx.int("param", 0, 99) for _ in ids]

    def f():
        with rpc.batch() as b:
            keep.append(b)
            for i, v in zip(ids, vals):
                if len(notes) < own and cx.fault("a notification first"):
                    b.notify("note", y=len(notes))
                    notes.append(len(made))
                    made.append(None)
                made.append((i, v))
                b.call_with_id(i, "method %s" % i, x=v)
            while len(notes) < own:
                b.notify("note", y=len(notes))
                notes.append(len(made))
                made.append(None)
            cx.check(not srv.requests, "nothing is sent before the block is left")

    keep = []
    made = []
    notes = []
    r, e = caught(f)
    cx.check(len(srv.requests) == 1, "the batch is sent in one request")
    cx.check(e is None, "a list of answers is accepted whatever is in it")
    req = srv.requests[0]
    cx.check(isinstance(req, list) and len(req) == calls + own, "every call is in the request")
    for c, m in zip(req, made):
        if m is None:
            cx.check("id" not in c and c["method"] == "note", "notifications have no id and are sent in order")
            continue
        i, v = m
        cx.check("id" in c and c["id"] == i and c["method"] == "method %s" % i and c["jsonrpc"] == "2.0" and
                 same_value(c["params"], {"x": v}), "the calls are sent in order, each with its id and parameters")
    cx.check(srv.streams[0].closed, "the response stream is closed")
    b = keep[0]
    good_ids = []
    for i in ids:
        mine = []
        for a in answer:
            if a[1] == "no" or isinstance(a[1], str) != isinstance(i, str) or a[1] is None:
                continue
            if a[1] == i:
                mine.append(a)
        v, x = caught(b.get_result, i)
        dflt = object()
        w, y = caught(b.get_result, i, dflt)
        _, z = caught(b.check, i)
        if not mine:
            cx.check(x is not None and z is not None, "asking for a call the server did not answer fails")
            cx.reach("missing")
            continue
        if len(mine) > 1:
            ok = False
            for m in mine:
                if matches(cx, m, i, (v, x)):
                    ok = True
            cx.check(ok, "the result is one the server sent for that call")
            if x is None:
                good_ids.append(i)
            cx.reach("twice")
            continue
        r, _, k = mine[0]
        cx.check((z is None) == (x is None), "checking a call agrees with asking for its result")
        if "error" in r:
            cx.check(x is not None, "the error sent for a call is raised")
            if isinstance(r["error"], dict):
                remote_error(cx, x, "method %s" % i, r["error"].get("code"), r["error"].get("message"))
            cx.check(y is None and w is dflt, "the default replaces the error")
            for d in (None, 0, "", False, []):
                w, y = caught(b.get_result, i, d)
                cx.check(y is None and w is d, "any default replaces the error")
            cx.reach("error")
        else:
            cx.check(x is None and same_value(v, r.get("result")), "the result is the one the server sent for that call")
            cx.check(y is None and same_value(w, r.get("result")), "a default does not replace a result")
            good_ids.append(i)
            cx.reach("result")
    _, e = caught(b.check, *ids)
    cx.check((e is None) == (len(good_ids) == len(ids)), "checking several calls fails if any of them failed")
    _, e = caught(b.check, *good_ids)
    cx.check(e is None, "checking calls that succeeded does not fail")
    _, e = caught(b.get_result, "never called")
    cx.check(e is not None, "asking for a call that was never made fails")
    cx.observe(len(good_ids), len(answer))


def big(cx, calls, automatic):
    """A batch of many calls, answered in any of some orders, one of them with an error or not at all."""
    srv = Server(cx)
    rpc = JSONRPC(URL)
    order = cx.pick("order", ["in order", "backwards", "mixed"])
    odd = cx.int("odd", 0, calls - 1)
    code = cx.int("code", -40000, 40000)
    how = cx.pick("how", ["error", "missing"])

    def reply(req):
        out = []
        for k, c in enumerate(req):
            if k == odd:
                if how == "error":
                    out.append({"jsonrpc": "2.0", "id": c["id"], "error": {"code": code, "message": "mm"}})
                continue
            out.append({"jsonrpc": "2.0", "id": c["id"], "result": [k, c["method"]]})
        if order == "backwards":
            out.reverse()
        elif order == "mixed":
            out = out[1::2] + out[::2]
        return json_bytes(out)

    srv.reply = reply
    with rpc.batch() as b:
        for k in range(calls):
            if automatic:
                b.call("m%d" % k, x=k)
            else:
                b.call_with_id("id%d" % k, "m%d" % k, x=k)
    cx.check(len(srv.requests) == 1 and len(srv.requests[0]) == calls, "every call is in the one request")
    ids = [c["id"] for c in srv.requests[0]]
    cx.check(len(set(ids)) == calls, "every call of a batch has its own id")
    cx.check([(c["method"], c["params"]["x"]) for c in srv.requests[0]] == [("m%d" % k, k) for k in range(calls)],
             "the calls are sent in order, each with its id and parameters")
    for k in range(calls):
        if k == odd:
            _, x = caught(b.get_result, ids[k])
            cx.check(x is not None, "the error sent for a call is raised")
            if how == "error":
                remote_error(cx, x, "m%d" % k, code, "mm")
        else:
            cx.check(b.get_result(ids[k]) == [k, "m%d" % k], "the result is the one the server sent for that call")
            b.check(ids[k])
    _, e = caught(b.check, *ids)
    cx.check(e is not None, "checking several calls fails if any of them failed")
    good(cx, srv, rpc, *ids)
    cx.reach("big")


def big_fixed(cx, calls, automatic):
    """The same with very many calls."""
    class Fixed(object):
        def __getattr__(self, name):
            return getattr(cx, name)

        def int(self, name, lo, hi):
            return calls // 3 if name == "odd" else cx.int(name, lo, hi)

    big(Fixed(), calls, automatic)


def own_ids(cx, n):
    """Calls with given and with automatic ids in any order: every call has its own."""
    srv = Server(cx)
    rpc = JSONRPC(URL)
    for _ in range(cx.choice("earlier calls", 2)):
        rpc.new_call_id()
    answer = {}

    def reply(req):
        out = []
        for c in req:
            out.append({"jsonrpc": "2.0", "id": c["id"], "result": c["method"]})
        return json_bytes(out)

    srv.reply = reply
    b = rpc.batch()
    given = []
    made = []
    refused = []
    for k in range(n):
        if cx.fault("automatic"):
            r, e = caught(b.call, "m%d" % k)
            cx.check(e is None, "a call without id is always possible")
            made.append("m%d" % k)
        else:
            i = cx.int("id", 0, 6)
            r, e = caught(b.call_with_id, i, "m%d" % k)
            if i in [g[0] for g in given]:
                cx.check(e is not None, "a repeated id is refused")
                cx.reach("refused")
            elif e is None:
                made.append("m%d" % k)
                given.append((i, "m%d" % k))
            else:
                refused.append(i)
    b.send()
    req = srv.requests[0]
    cx.check([c["method"] for c in req] == made, "exactly the accepted calls are sent, in order")
    seen = []
    for c in req:
        cx.check(c["id"] not in seen, "every call of a batch has its own id")
        seen.append(c["id"])
        cx.check(b.get_result(c["id"]) == c["method"], "the result is the one the server sent for that call")
    for i in refused:
        cx.check(i in seen, "a new id is accepted")
    for i, m in given:
        cx.check(b.get_result(i) == m, "the result is the one the server sent for that call")
    cx.reach("own ids")


def when(cx):
    """Sent on leaving the block, not if abandoned or if the block raised."""
    srv = Server(cx)
    rpc = JSONRPC(URL)
    srv.reply = lambda req: json_bytes([{"jsonrpc": "2.0", "id": c["id"], "result": 4} for c in req])
    how = cx.pick("how", ["normal", "abandoned first", "abandoned last", "raised", "raised and caught inside"])
    err = cx.pick("error", [ValueError("x"), KeyError("x"), StopIteration(), Exception("x"), KeyboardInterrupt(),
                            SystemExit(0), GeneratorExit()])
    keep = []

    def f():
        with rpc.batch() as b:
            keep.append(b)
            if how == "abandoned first":
                b.abandon("no need")
            b.call_with_id("a", "m")
            b.call_with_id("b", "m")
            if how == "raised":
                raise err
            if how == "raised and caught inside":
                caught(b.call_with_id, "a", "m")
            if how == "abandoned last":
                b.abandon()

    e = None
    try:
        f()
    except (Exception, KeyboardInterrupt, SystemExit, GeneratorExit) as x:
        e = x
    if how in ("normal", "raised and caught inside"):
        cx.check(e is None and len(srv.requests) == 1 and len(srv.requests[0]) == 2, "the batch is sent once")
        cx.check(keep[0].get_result("a") == 4 and keep[0].get_result("b") == 4, "the results are there")
    else:
        cx.check(not srv.requests, "nothing is sent if the batch was abandoned or its block raised")
        cx.check(e is (err if how == "raised" else None), "the error of the block is passed on")
        for i in ("a", "b"):
            _, x = caught(keep[0].get_result, i)
            cx.check(x is not None, "asking for a call that was not sent fails")
    cx.reach(how)


def not_a_list(cx):
    """Answers that are not a list, or do not come."""
    srv = Server(cx)
    rpc = JSONRPC(URL)
    what = cx.pick("answer", ["object", "error object", "text", "null", "number", "not json", "unreachable", "read"])
    keep = []

    def reply(req):
        if what == "unreachable":
            raise OSError(111, "x")
        if what == "not json":
            return b"<html>"
        return json_bytes({"object": {"jsonrpc": "2.0", "id": "a", "result": 1}, "text": "a", "null": None,
                           "error object": {"jsonrpc": "2.0", "id": None, "error": {"code": -32700, "message": "x"}},
                           "number": 5, "read": []}[what])

    srv.reply = reply
    if what == "read":
        srv.read_error = OSError(104, "x")

    def f():
        with rpc.batch() as b:
            keep.append(b)
            b.call_with_id("a", "m")
    r, e = caught(f)
    cx.check(e is not None, "an answer that is not a list of responses fails")
    if what in ("unreachable", "read"):
        cx.check(isinstance(e, ServerUnreachableError), "an unreachable server raises the error of that kind")
    elif what != "not json":
        cx.check(isinstance(e, ProtocolError), "an answer that is not a list is a protocol error")
    _, x = caught(keep[0].get_result, "a")
    cx.check(x is not None, "asking for a call without answer fails")
    for s in srv.streams:
        cx.check(s.closed, "the response stream is closed")
    srv.read_error = None
    good(cx, srv, rpc)
    cx.reach("no list")


def plan(tier):
    t = tier == "thorough"
    main = ["result", "error", "null"]
    odd = ["result", "error", "junk", "no result", "both", "empty error"]
    return {
        "bounds": ("batches of up to %d calls, answered by up to %d entries in any order, each a result of any value, "
                  "an error of any code and message, or junk, for any of the calls, another id, any integer id, a "
                  "null or missing id; up to %d calls with given (any of a range) and automatic ids mixed" % (
                      3, 4 if t else 3, 4 if t else 3)) +
                  "; batches of a thousand calls",
        "outside": "bigger batches; which of several answers to one id counts; a batch used by several threads",
        "jobs": [
            {"fn": "route", "cases": [
                {"calls": 2, "entries": k, "kinds": main, "idspace": ["other", "any"], "own": 1} for k in range(0, 3)] + [
                {"calls": 3, "entries": 3, "kinds": ["result", "error"], "idspace": []},
                {"calls": 1, "entries": 2, "kinds": odd, "idspace": ["absent", "null", "other", "list"]},
                {"calls": 2, "entries": 2, "kinds": odd, "idspace": ["absent", "null"]},
                {"calls": 2, "entries": 2, "kinds": ["result", "odd error"], "idspace": ["other"]}] + ([
                    {"calls": 3, "entries": 4, "kinds": ["result", "error"], "idspace": []},
                    {"calls": 2, "entries": 3, "kinds": odd, "idspace": ["absent", "null", "any"]}] if t else []),
             "weight": 2},
            {"fn": "own_ids", "cases": [{"n": 4 if t else 3}], "reach": ["own ids", "refused"]},
            {"fn": "big", "cases": [{"calls": 24 if t else 12, "automatic": a} for a in (False, True)],
             "reach": ["big"], "max_steps": 4000000},
            {"fn": "big_fixed", "cases": [{"calls": 5000 if t else 1200, "automatic": a} for a in (False, True)],
             "reach": ["big"], "max_steps": 4000000},
            {"fn": "when", "reach": ["normal", "raised", "abandoned first", "abandoned last",
                                     "raised and caught inside"]},
            {"fn": "not_a_list", "reach": ["no list"]},
        ]}
