"""C41: the auth token is told to the API server only."""
from props.agent import *
from sxenv import threads
from sxenv.fs import fs
from dataplicity import constants

P_OPS = ["poll", "identity", "sync", "drop", "file"]


def sealed(calls, token, cx):
    """A request with the token taken out."""
    out = []
    for c in calls if isinstance(calls, list) else [calls]:
        p = dict(c["params"])
        if c["method"] == "device.check_auth":
            cx.check("auth_token" in p and p["auth_token"] == token, "the credentials are the device's")
            del p["auth_token"]
        out.append([c["method"], c["jsonrpc"], c["id"], p])
    return out


def story(cx, token, ops, answers, where):
    """One life of an agent with this token; everything it shows."""
    shown = []

    def log(level, msg, args):
        shown.append(plain(msg % tuple(args) if args and not (len(args) == 1 and isinstance(args[0], dict)) else msg))

    cx.st["log"] = log
    cx.st["log_exc"] = lambda e: shown.append(plain(str(e)))
    cx.st["now"] = 1000.0
    cx.st["output"] = lambda args: b"one,two"
    cx.st["sys"] = []
    fs().trace = []
    left = list(answers)
    back = Backend(cx, lambda calls: [left.pop(0)] if len(left) > 1 else [left[0]], token=token)
    back.bad = 1
    if where == "file":
        fs().put(constants.AUTH_LOCATION, token.encode("utf-8") + b"\n")
        agent = new_agent(cx, token=None)
    else:
        agent = new_agent(cx, token=token)
    conn = agent.m2m.m2m_client
    ws = conn.websocket

    def deliver(*events):
        conn.on_close = lambda *a, **kw: None
        drive(cx, conn, iter(events))
        del conn.on_close
        ws.closed = False

    deliver(event("ready"))
    for op in ops:
        if op == "poll":
            _, e = caught(agent.poll)
            cx.check(e is None, "a poll does not fail")
        elif op == "identity":
            deliver(binary(SET_ID, b"1" * 32))
        elif op == "sync":
            deliver(binary(INSTRUCTION, b"s", {b"action": b"sync"}))
        elif op == "file":
            deliver(binary(INSTRUCTION, b"s", {b"action": b"read-file", b"port": 5, b"path": b"/none"}))
            threads.run_threads()
        else:
            deliver(event("disconnected"), event("ready"))
        cx.st["now"] = cx.st["now"] + 4000.0
    said = [list(ws.sent), shown, [plain(repr(x)) for x in cx.st["sys"]], [list(x) for x in fs().trace]]
    del cx.st["log"]
    del cx.st["log_exc"]
    return said, [sealed(r, token, cx) for r in back.srv.requests]


def plain(s):
    """A text without the addresses of objects."""
    if isinstance(s, bytes):
        return s
    out = ""
    while True:
        i = s.find(" at 0x")
        if i < 0:
            return out + s
        out = out + s[:i]
        s = s[i + 6:]
        while s[:1] in tuple("0123456789abcdef"):
            s = s[1:]


def alike(cx, n, length, ops, answers, where):
    """Two agents that differ only in their tokens show the same to everyone but the API server."""
    story_ops = [cx.pick("op", ops) for _ in range(n)]
    how = [cx.pick("answer", answers) for _ in range(2)]
    fs().put("/proc/cpuinfo", b"Revision\t: a02082\n")
    fs().put(TAGS, b"#!")
    a, b = cx.chars("token", length, 97, 122), cx.chars("token", length, 97, 122)
    # any token is linked to any other one by such pairs
    for k in range(length):
        cx.assume(a[k] != b[k])
    story(cx, "w" * length, story_ops, ["accept"], where)      # what is done once only is done now
    one, asked = story(cx, a, story_ops, how, where)
    two, asked2 = story(cx, b, story_ops, how, where)
    cx.check(len(asked) == len(asked2) and same_value(asked, asked2), "the requests differ in the token of the authentication calls only")
    for what, x, y in zip(("is sent to the router", "is logged", "is given to programs", "is done to files"), one, two):
        cx.check(len(x) == len(y), "what %s does not depend on the auth token" % what)
        for p, q in zip(x, y):
            cx.check(p == q, "what %s does not depend on the auth token" % what)
    if asked:
        cx.reach("asked")
    cx.reach("alike")


def plan(tier):
    t = tier == "thorough"
    few = ["accept", "auth error", "unreachable", "call error"]
    rest = ["not json", "read fails", "auth missing", "empty", "no ids", "both errors"]
    return {
        "bounds": "every life of %d steps (poll, identity given, sync asked for, connection lost, a service; the clock an hour "
                  "further at each) with the server answering in any of 10 ways, of two agents with any two tokens of %s letters, from the command "
                  "line or the file" % (3 if t else 2, "4, 32 or 200" if t else "4 or 32"),
        "outside": "tokens of different lengths; the command line itself; longer lives; tracebacks beyond the exceptions' messages",
        "jobs": [
            {"fn": "alike", "cases": [{"n": 3 if t else 2, "length": k, "ops": P_OPS, "answers": few, "where": "option"} for k in ((4, 32, 200) if t else (32,))] +
                [{"n": 2, "length": 4, "ops": ["poll", "identity", "sync"], "answers": a, "where": w} for w, a in
                 (("file", few), ("option", rest))],
             "reach": ["alike", "asked"]},
        ]}
