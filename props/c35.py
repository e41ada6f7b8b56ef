"""C35: the command line reports failure through its exit status."""
from props.agent import *
from sxenv.fs import fs
from sxenv import fs as fsenv
from dataplicity import app as app_module
from dataplicity import constants
from dataplicity._version import __version__

LEVELS = {"NOTSET": 0, "DEBUG": 10, "INFO": 20, "WARN": 30, "WARNING": 30, "ERROR": 40, "CRITICAL": 50}
# an exit status is cut to 8 bits
ODD = ERRORS + [BrokenPipeError(32, "x"), PermissionError(13, "x"), FileNotFoundError(2, "x"), TimeoutError(110, "x"),
                ConnectionRefusedError(111, "x"), InterruptedError(4, "x"), EOFError("x"), MemoryError("x"),
                StopIteration("x"), AssertionError("x"), NotImplementedError("x"), OSError(0, "x"), OSError(256, "x"), OSError(-1, "x")]


def start(cx, argv, values=None):
    """Run the entry point: (exit status, exception that escaped, message)"""
    cx.st["argv"] = ["/usr/bin/dataplicity"] + argv
    cx.st["argv_values"] = values or {}
    try:
        app_module.main()
        status, exc = 0, None
    except SystemExit as e:
        c = e.code
        status, exc = (0 if c is None else c % 256 if isinstance(c, int) else 1), None
    except Exception as e:
        status, exc = 1, e
    msg = ""
    for s in cx.st.get("stderr", []) + cx.st.get("usage", []):
        msg = msg + s
    return status, exc, msg


class Run(object):
    """A world in which the agent can run; exits after its first poll unless end() raises."""

    def __init__(self, cx, end=None):
        self.cx = cx
        self.requests = []
        self.sockets = []
        cx.st["events"] = []
        cx.st["urlopen"] = self.urlopen
        self.end = end
        self.waits = 0
        cx.st["event_wait"] = self.wait
        cx.st["ws_new"] = self.sockets.append

    def urlopen(self, url, data):
        req = parse_json(data.decode("utf-8"))
        self.requests.append((url, req))
        return wire.Response(json_bytes([{"jsonrpc": "2.0", "id": c["id"], "result": None} for c in req]))

    def wait(self, ev, timeout):
        self.waits += 1
        if self.end is not None:
            raise self.end
        return True


def files(cx, serial=True, auth=True, pad=True):
    a = cx.chars("stored serial", 2, 33, 126)
    b = cx.chars("stored auth", 2, 33, 126)
    if serial:
        fs().put(constants.SERIAL_LOCATION, (b" \n" if pad else b"") + a.encode("ascii") + b"\n")
    if auth:
        fs().put(constants.AUTH_LOCATION, b.encode("ascii") + (b"\n \t" if pad else b""))
    return a, b


def options(cx, given):
    """Options given and stored: those given win, all reach the agent unchanged."""
    w = Run(cx)
    serial, auth = files(cx)
    values = {}
    argv = []
    want = {"serial": serial, "auth": auth, "server": constants.SERVER_URL, "m2m": constants.M2M_URL,
            "remote": constants.REMOTE_DIRECTORY_LOCATION}
    for k, opts in (("serial", ["--serial"]), ("auth", ["--auth"]), ("server", ["-s", "--server-url"]),
                    ("m2m", ["-m", "--m2m-url"]), ("remote", ["--remote-dir"])):
        if k in given:
            o = cx.pick("option", opts)
            v = cx.chars(k, 3, 33 if k != "remote" else 48, 126 if k != "remote" else 122) if k != "m2m" else cx.pick("m2m", [
                "ws://a/", "wss://b/m2m/?x=1", "?"])
            if k == "remote":
                v = "/" + v
            want[k] = v
            values["@" + k] = v
            argv += [o, "@" + k] if cx.fault("apart") or not o.startswith("--") else [o + "=@" + k]
    status, exc, msg = start(cx, argv + ["run"], values)
    cx.check(status == 0 and exc is None, "a subcommand that succeeds exits with status 0")
    cx.check(len(w.requests) > 0, "the agent ran")
    for url, req in w.requests:
        cx.check(url == want["server"], "the server is the one given, or the default")
        p = req[0]["params"]
        cx.check(And(p["serial"] == want["serial"], p["auth_token"] == want["auth"]),
                 "the credentials are those given, or the stored ones")
    cx.check(len(w.sockets) == 1, "the agent has one connection")
    u = w.sockets[0].url
    cx.check(u.startswith(want["m2m"]), "the router is the one given, or the default")
    if "?" in want["m2m"]:
        cx.check(u == want["m2m"], "a router address with a query is used unchanged")
    else:
        cx.check(u[len(want["m2m"]):] in ("?features=scan,downloads", "?features=downloads,scan"),
                 "the features are announced")
    cx.reach("options")


def remote(cx):
    """The remote directory given on the command line is the one used."""
    w = Run(cx)
    files(cx)
    v = "/" + cx.chars("dir", 3, 97, 122)
    made = []
    argv = ["--remote-dir", "@r"] if cx.fault("given") else []
    cx.st["argv"] = ["dataplicity"] + argv + ["run"]
    cx.st["argv_values"] = {"@r": v}
    a = app_module.App()
    make = a.make_client
    a.make_client = lambda: (made.append(make()), made[0])[1]
    r, e = caught(a.run)
    cx.check(e is None and r == 0, "a subcommand that succeeds gives status 0")
    cx.check(made[0].remote_directory_path == (v if argv else constants.REMOTE_DIRECTORY_LOCATION),
             "the remote directory is the one given, or the default")
    cx.reach("remote")


def failing(cx, commands):
    """Subcommands that succeed or fail in any way."""
    cmd = cx.pick("command", commands)
    debug = cx.fault("debug")
    err = None
    argv = (cx.pick("flag", [["-d"], ["--debug"]]) if debug else []) + [cmd]
    if cmd == "version":
        if cx.fault("output"):
            err = cx.pick("error", ODD)

            def fault(name):
                if name == "stdout":
                    raise err
            cx.st["out_fault"] = fault
    else:
        how = cx.pick("how", ["ok", "no serial", "no auth", "loop", "interrupt", "thread"])
        end = None
        if how == "loop":
            err = end = cx.pick("error", ODD)
        elif how == "interrupt":
            end = cx.pick("stop", [KeyboardInterrupt(), SystemExit(4)])
        elif how == "thread":
            cx.st["thread_fault"] = lambda t: True
            err = "any"
        elif how in ("no serial", "no auth"):
            err = "any"
        w = Run(cx, end)
        files(cx, how != "no serial", how != "no auth")
    status, exc, msg = start(cx, argv)
    if err is None:
        cx.check(status == 0 and exc is None, "a subcommand that succeeds exits with status 0")
        cx.reach("success")
    else:
        cx.check(status != 0, "a subcommand that fails exits with a non-zero status")
        if debug:
            cx.check(exc is not None and (err == "any" or exc is err), "with debug on the original error is raised")
            cx.reach("debug")
        else:
            cx.check(exc is None, "an error is not raised, but reported")
            cx.check(len(msg) > 0 and msg.endswith("\n"), "an error is reported by a message")
            if err != "any":
                cx.check(str(err) in msg, "the message says what failed")
            cx.reach("failure")
    if cmd == "version" and err is None:
        out = ""
        for s in cx.st.get("stdout", []):
            out = out + s
        cx.check(out.strip() == __version__, "the version is written")
    cx.reach(cmd)


def levels(cx, n, how):
    """Log levels of n characters."""
    v = cx.chars("level", n, 32, 126)
    argv = ["--log-level", "@l"] if how != "file" else ["--log-level=@l", "--log-file", "/tmp/x.log"]
    status, exc, msg = start(cx, argv + ["version"], {"@l": v})
    name = v.upper()
    want = None
    for k in LEVELS:
        if name == k:
            want = LEVELS[k]
    ran = len(cx.st.get("stdout", []))
    cx.assume(Not(v.startswith("-")))
    if want is None:
        cx.check(status != 0, "an invalid log level is a non-zero exit")
        cx.check(exc is None and len(msg) > 0, "an invalid log level is reported by a message")
        cx.check(not ran, "nothing is done with an invalid log level")
        cx.reach("invalid")
    else:
        cx.check(status == 0 and exc is None and ran, "a valid log level is accepted")
        cfg = cx.st["logging_config"]
        cx.check(len(cfg) == 1, "logging is set up once")
        if how == "file":
            l = cfg[0]["loggers"][""]["level"]
            cx.check(l == want or (isinstance(l, str) and LEVELS.get(str(l)) == want), "the log level is the one given")
            fn = [h["filename"] for h in cfg[0]["handlers"].values()]
            cx.check(fn == ["/tmp/x.log"], "the log file is the one given")
        else:
            cx.check(cfg[0]["level"] == want, "the log level is the one given")
        cx.reach("valid")


def shape(cx):
    """Command lines that name no subcommand, or nothing known."""
    k = cx.pick("argv", [[], ["-q"], ["--debug"], ["--serial", "x"], ["nonsense"], ["--nonsense", "version"],
                         ["--serial"], ["version", "extra"], ["--version"], ["-v"], ["-q", "version"],
                         ["--quiet", "version"], ["--log-level", "debug", "version"], ["--help"]])
    status, exc, msg = start(cx, k)
    good = k in (["--version"], ["-v"], ["-q", "version"], ["--quiet", "version"], ["--log-level", "debug", "version"],
                 ["--help"])
    cx.check((status == 0) == good and exc is None, "no subcommand, or an invalid command line, is a non-zero exit")
    if not good:
        cx.check(not cx.st.get("stdout"), "nothing is done")
        cx.check(len(msg) > 0, "an invalid command line is reported by a message")
    if k and k[0] in ("-q", "--quiet") and len(k) > 1:
        cx.check(cx.st["logging_config"][0]["level"] == 50, "quiet hides all but critical output")
    cx.reach("shape")


def plan(tier):
    t = tier == "thorough"
    some = [[], ["serial"], ["auth"], ["server"], ["m2m"], ["remote"], ["serial", "auth"],
            ["serial", "auth", "server", "m2m", "remote"]]
    return {
        "bounds": "each option alone, credentials together, all together, with any values of 3 printable characters (the router's "
                  "address from 3 forms); every subcommand succeeding or failing with any of 26 exceptions, missing "
                  "files or threads, with and without debug; log levels of %s printable characters; 14 other "
                  "command lines" % "4 to 8",
        "outside": "argparse itself (run as it is, on place holders for the option values)",
        "jobs": [
            {"fn": "options", "cases": [{"given": g} for g in some], "reach": ["options"]},
            {"fn": "remote", "reach": ["remote"]},
            {"fn": "failing", "cases": [{"commands": ["version"]}, {"commands": ["run"]}],
             "reach": ["success", "failure", "debug"]},
            {"fn": "levels", "cases": [{"n": n, "how": h} for n in ((4, 5, 6, 7, 8) if t else (4, 5, 7))
                                       for h in ("plain", "file")], "reach": ["invalid", "valid"]},
            {"fn": "shape", "reach": ["shape"]},
        ]}
