"""C42: the settings of the environment take effect."""
from sx import loader
from props.stack import *
from props.c35 import Run, files
from sxenv import fs as fsenv

API, M2M = "https://api.dataplicity.com", "wss://m2m.dataplicity.com/m2m/"
NAMES = {"services": "DATAPLICITY_LIMIT_SERVICES", "terminals": "DATAPLICITY_LIMIT_TERMINALS"}
DEFAULT = {"services": 500, "terminals": 100}
P_POOLS = ["services", "terminals"]
P_KINDS = ["file", "command", "redirect", "service"]
P_WORDS = ["", "many", "1.5", "0x10", "3 4", "-", "12k", "None", "1e3"]


def new_process(cx, **env):
    """The agent's code as loaded by a process with this environment."""
    for k in list(fsenv.environ.keys()):
        if k.startswith("DATAPLICITY_"):
            fsenv.environ.pop(k)
    for k in env:
        if env[k] is not None:
            fsenv.environ[k] = env[k]
    loader.new_process()


class Newly(Stack):
    """The stack of newly loaded modules."""

    def __init__(self, cx):
        self.cx = cx
        self.base = 0
        cx.st["events"] = []
        manager = loader.load("dataplicity.m2mmanager").M2MManager
        forward = loader.load("dataplicity.portforward").PortForwardManager
        self.client = AgentClient()
        self.client.port_forward = forward.init(self.client)
        self.manager = manager.init(self.client, RemoteDir(), "wss://example.org/m2m/")
        self.client.m2m = self.manager
        self.m2m = self.manager.m2m_client
        self.ws = self.m2m.websocket
        cx.st["queue"] = []
        cx.st["started"] = []


def request(st, pool, k, kind):
    if pool == "terminals":
        return st.start(action=b"open-terminal", port=k, name=b"shell")
    if kind == "file":
        return st.start(action=b"read-file", port=k, path=b"/probe")
    if kind == "command":
        return st.start(action=b"run-command", port=k, command=b"ls")
    if kind == "redirect":
        return st.start(action=b"open-portredirect", m2m_port=k, device_port=8080)
    return st.start(action=b"open-portforward", service=b"web", route=[b"a", 1, b"b", k])


def accepts(st, pool, most, kind):
    """How many of `most` + 1 requests made at once are accepted; the later ones are all refused."""
    n = 0
    for k in range(most):
        if not request(st, pool, 1 + k, kind):
            break
        n += 1
    return n


def text_of(cx, how, lo, hi, digits):
    """(the variable's text, what it says or None)"""
    if how == "unset":
        return None, None
    if how == "word":
        return cx.pick("word", P_WORDS), None
    t = cx.chars("digits", digits, 48, 57)
    v = 0
    for i in range(digits):
        v = v * 10 + (ord(t[i]) - 48)
    cx.assume(And(v >= lo, v <= hi))
    if how == "padded":
        t = cx.pick("before", [" ", "", "\t"]) + t + cx.pick("after", ["", "\n", "  "])
    return t, v


def number(cx, pool, how, digits, most, kinds):
    """A limit given as any whole number: exactly that many at once."""
    other = [n for n in NAMES if n != pool][0]
    t, v = text_of(cx, how, 1, most, digits)
    ot = cx.pick("other", ["1", None])
    new_process(cx, **{NAMES[pool]: t, NAMES[other]: ot})
    st = Newly(cx)
    kind = cx.pick("kind", kinds)
    used = cx.choice("of the other pool in use", 2)
    for k in range(used):
        cx.check(request(st, other, 700 + k, "file") == 1, "a request below the limit is accepted")
    n = accepts(st, pool, most + 1, kind)
    cx.check(n == v, "as many run at once as the environment says")
    cx.check(request(st, pool, 800, kind) == 0, "as many run at once as the environment says")
    if ot == "1":
        cx.check(request(st, other, 801, "file") == 1 - used, "the limits are of two pools")
    cx.reach("number")


def default(cx, pool, how):
    """A limit that is not given, or not a whole number: the default one."""
    other = [n for n in NAMES if n != pool][0]
    t, _ = text_of(cx, how, 0, 0, 1)
    new_process(cx, **{NAMES[pool]: t, NAMES[other]: "1"})
    st = Newly(cx)
    n = accepts(st, pool, DEFAULT[pool] + 1, "file")
    cx.check(n == DEFAULT[pool], "the default holds when the environment does not say")
    cx.check(request(st, pool, 900, "file") == 0, "the default holds when the environment does not say")
    cx.check(request(st, other, 901, "file") == 1 and request(st, other, 902, "file") == 0,
             "as many run at once as the environment says")
    cx.reach("default")


def large(cx, pool, count):
    """A limit beyond the default."""
    new_process(cx, **{NAMES[pool]: str(count)})
    st = Newly(cx)
    cx.check(accepts(st, pool, count + 1, "file") == count, "as many run at once as the environment says")
    cx.reach("large")


def none(cx, pool):
    """A limit below one is refused at start."""
    sign = cx.pick("sign", ["", "-", "+"])
    t = sign + cx.chars("digits", 2, 48, 57 if sign == "-" else 48)
    new_process(cx, **{NAMES[pool]: t})
    w = Run(cx)
    files(cx)
    cx.st["argv"] = ["dataplicity", "run"]
    app = loader.load("dataplicity.app")
    r, e = caught(app.App().run)
    cx.check(e is not None or r != 0, "a limit below one is an error at start")
    cx.check(not w.waits, "a limit below one is an error at start")
    cx.reach("none")


def servers(cx, given):
    """The servers are those of the environment unless the command line names others."""
    api = "https://" + cx.chars("api", 3, 33, 126) if "api" in given else None
    m2m = "wss://h/" + cx.chars("m2m", 3, 33, 126) if "m2m" in given else None
    argv, values = [], {}
    want = [api or API, m2m or M2M]
    if "-s" in given:
        want[0] = values["@s"] = "http://" + cx.chars("server", 3, 33, 126)
        argv += ["-s", "@s"]
    if "-m" in given:
        want[1] = values["@m"] = "ws://h/" + cx.chars("router", 3, 33, 126)
        argv += ["-m", "@m"]
    new_process(cx, DATAPLICITY_API_URL=api, DATAPLICITY_M2M_URL=m2m)
    w = Run(cx)
    files(cx)
    cx.st["argv"] = ["dataplicity"] + argv + ["run"]
    cx.st["argv_values"] = values
    app = loader.load("dataplicity.app")
    r, e = caught(app.App().run)
    cx.check(e is None and r == 0, "the agent runs")
    cx.check(len(w.requests) > 0, "the agent reports to a server")
    for url, req in w.requests:
        cx.check(url == want[0], "the API server is the one of the command line, else of the environment, "
                                 "else the default")
    cx.check(len(w.sockets) == 1, "the agent has one connection")
    u = w.sockets[0].url
    cx.check(u.startswith(want[1]), "the router is the one of the command line, else of the environment, "
                                    "else the default")
    if "?" in want[1]:
        cx.check(u == want[1], "a router address with a query is used unchanged")
    else:
        cx.check(Or(u == want[1] + "?features=scan,downloads", u == want[1] + "?features=downloads,scan"),
                 "the features are announced")
    cx.reach("servers")


def plan(tier):
    t = tier == "thorough"
    most = {1: 9, 2: 20 if t else 14}
    given = [[], ["api"], ["m2m"], ["api", "m2m"], ["api", "m2m", "-s"], ["api", "m2m", "-m"],
             ["api", "m2m", "-s", "-m"], ["-s", "-m"]]
    return {
        "bounds": "either limit given as any one digit number from 1, or two digit number up to %d (also with white "
                  "space around), filled by each kind of request with the other pool limited to one, or by its "
                  "default, and in use or not; not given, or one of %d texts that are no number; 00 and +00 to -99; "
                  "limits of 600 and 1200; any addresses of three characters in the environment with "
                  "or without others on the command line" % (most[2], len(P_WORDS)),
        "outside": "texts mixing digits and other characters beyond those listed; addresses given but empty; changes of the environment while the "
                   "agent runs",
        "jobs": [
            {"fn": "number", "cases": [{"pool": p, "how": h, "digits": d, "most": most[d], "kinds": k} for p in P_POOLS
                                       for h, d, k in (("plain", 1, P_KINDS), ("plain", 2, ["file"]),
                                                       ("padded", 1, ["file"])) if p == "services" or k != P_KINDS] + [
                {"pool": "terminals", "how": "plain", "digits": 1, "most": 9, "kinds": ["file"]}],
             "reach": ["number"]},
            {"fn": "default", "cases": [{"pool": p, "how": h} for p in P_POOLS for h in ("unset", "word")],
             "reach": ["default"], "hang": True, "max_steps": 4000000, "weight": 2},
            {"fn": "large", "cases": [{"pool": p, "count": 600 if p == "terminals" else 1200} for p in P_POOLS],
             "reach": ["large"], "hang": True, "max_steps": 8000000, "weight": 2},
            {"fn": "none", "cases": [{"pool": p} for p in P_POOLS], "reach": ["none"]},
            {"fn": "servers", "cases": [{"given": g} for g in given], "reach": ["servers"]},
        ],
    }
