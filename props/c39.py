"""C39: a terminal runs exactly its command, as its user and group, in a process of its own."""
import errno
from props.stack import *

CHAN = 12
COMMANDS = [("bash -i", ["bash", "-i"]), ("/usr/bin/login", ["/usr/bin/login"]),
            ("sh -c 'a b; c'", ["sh", "-c", "a b; c"]), ("run  \"x y\"  -v", ["run", "x y", "-v"]),
            ("my\\ shell -l", ["my shell", "-l"]), ("sh -c '' \"\" z", ["sh", "-c", "", "", "z"]), ("", None)]


class Replaced(BaseException):
    """The process now runs another program."""


class Ended(BaseException):
    """The process has ended."""


class Child(object):
    """The new process: its identity and what it does (as the kernel would let it)."""

    def __init__(self, cx, uid, gid):
        self.cx = cx
        self.uid = uid
        self.gid = gid
        self.execs = []
        self.replaced = self.ended = False
        self.error = None
        st = cx.st
        st["setuid"] = self.setuid
        st["setgid"] = self.setgid
        st["setgroups"] = st["initgroups"] = self.setgroups
        st["exec"] = self.exec
        st["_exit"] = self._exit

    def setuid(self, u):
        if self.uid != 0 and u != self.uid:
            raise fsenv.err(errno.EPERM)
        self.uid = u

    def setgid(self, g):
        if self.uid != 0 and g != self.gid:
            raise fsenv.err(errno.EPERM)
        self.gid = g

    def setgroups(self, *args):
        if self.uid != 0:
            raise fsenv.err(errno.EPERM)

    def exec(self, f, args):
        self.execs.append((f, list(args), self.uid, self.gid))
        if self.error is not None:
            raise self.error
        self.replaced = True
        raise Replaced()

    def _exit(self, status):
        self.ended = True
        raise Ended()


def child(cx, user, group, faults):
    """The new process, from the fork on."""
    st = Stack(cx)
    Pty(cx)
    uid, gid = cx.int("uid of the agent", 0, 60000), cx.int("gid of the agent", 0, 60000)
    u, g = cx.int("uid of the user", 0, 60000), cx.int("gid of the group", 0, 60000)
    c = Child(cx, uid, gid)
    # users and groups are named alike, with ids of their own
    cx.st["pwd"] = lambda n: {"someone": u, "staff": 60001}.get(n)
    cx.st["grp"] = lambda n: {"staff": g, "someone": 60002}.get(n)
    command, argv = COMMANDS[cx.choice("command", len(COMMANDS))]
    if argv is None:
        # the shell of the agent's environment
        argv = ["/bin/my-shell"]
        fsenv.environ["SHELL"] = "/bin/my-shell"
    st.manager.add_terminal("t", command, user=user, group=group)
    want = (u if user == "someone" else uid, g if group == "staff" else gid)
    if faults:
        c.error = cx.pick("error", [fsenv.err(errno.ENOENT), fsenv.err(errno.EACCES), fsenv.err(errno.ENOMEM),
                                    ValueError("embedded null byte")])
    st.start(action=b"open-terminal", port=CHAN, name=b"t")
    q = st.queued()
    cx.check(len(q) == 1, "a terminal is opened")
    cx.st["queue"] = []
    before = len(cx.st["started"])

    def polled(p, timeout):
        cx.fail("the new process does none of the agent's work")

    cx.st["poll"] = polled
    cx.st["fork"] = lambda: (0, -1)
    out = len(st.packets())
    trace = len(cx.st.get("sys", []))
    _, e = endly(q[-1].run)
    may = uid == 0 or (want[0] == uid and want[1] == gid)
    for f, args, i, j in c.execs:
        cx.check(f == argv[0] and args == argv, "exactly the terminal's command runs")
        cx.check(i == want[0] and j == want[1], "the command runs as the terminal's user and group")
    if may:
        cx.check(len(c.execs) == 1, "the terminal's command is run, once")
        cx.reach("may")
    elif c.execs:
        cx.fail("the command runs as the terminal's user and group")
    if not c.replaced:
        # the process ends with this thread
        cx.check(len(st.packets()) == out, "the new process does none of the agent's work: it sends nothing")
        cx.check(len(cx.st["started"]) == before, "the new process does none of the agent's work: it starts no thread")
        for x in cx.st.get("sys", [])[trace:]:
            cx.check(x[0] in ("fork", "setuid", "setgid", "setgroups", "initgroups", "exec", "_exit", "close"),
                     "the new process does none of the agent's work")
    cx.observe(len(c.execs))
    cx.reach("child")


def endly(f):
    try:
        return f(), None
    except BaseException as e:
        if not isinstance(e, (Replaced, Ended, Exception)):
            raise
        return None, e


def parent(cx, user, group, n):
    """The agent itself: a process of its own for each terminal, the agent's identity unchanged."""
    st = Stack(cx)
    pty = Pty(cx, None, 60)
    c = Child(cx, cx.int("uid of the agent", 0, 60000), 0)
    cx.st["waitpid"] = lambda pid, o: (pid, 0)
    cx.st["pwd"] = lambda x: 1000
    cx.st["grp"] = lambda x: 1000
    st.manager.add_terminal("t", "bash -i", user=user, group=group)
    sizes = []
    said = []
    for i in range(n):
        kw = {}
        if cx.choice("size given", 2):
            size = [cx.int("columns", 1, 9999), cx.int("lines", 1, 9999)]
            kw["size"] = size
        else:
            size = [80, 24]
        sizes.append(size)
        cx.check(st.start(action=b"open-terminal", port=CHAN + i, name=b"t", **kw) == 1, "a terminal is opened")

    def step():
        for t in pty.terms:
            if not t.out.closed:
                d = cx.cells("output", 2)
                said.append(d)
                t.out.put(d)
                t.out.closed = True

    pty.step = step
    cx.check(not st.run(), "no thread fails")
    cx.check(len(pty.terms) == n, "each terminal has a process of its own, once")
    got = []
    for i in range(n):
        d = b""
        for x in st.sent_on(CHAN + i)[0]:
            d = d + x
        got.append(d)
        size = sizes[i]
        rows = pty.terms[i].sizes
        cx.check(len(rows) >= 1 and rows[-1][0] == size[1] and rows[-1][1] == size[0],
                 "the terminal has the size asked for, or 80 by 24")
    cx.check(got == said, "each terminal has a process of its own")
    for kind in ("setuid", "setgid", "setgroups", "exec", "_exit"):
        cx.check(not sysrec(cx, kind), "the agent itself stays what it is")
    cx.check(not sysrec(cx, "popen"), "no other process is started")
    cx.reach("parent")


def plan(tier):
    who = [(u, g) for u in (None, "someone", "nobody-here") for g in (None, "staff", "no-such-group")]
    return {
        "bounds": "any user and group ids (0-60000) of the agent and of the terminal's user and group, which are "
                  "given, not given or unknown; seven commands with and without quoting, empty arguments or no command at all (the environment's shell); the command cannot be run for four reasons; up to two "
                  "terminals of any size up to 9999 by 9999 at once",
        "outside": "other commands and quoting (shlex is the standard library's); supplementary groups; failures between the fork and the command's start other "
                   "than refused identities and programs that cannot be run",
        "jobs": [
            {"fn": "child", "cases": [{"user": u, "group": g, "faults": f} for u, g in who for f in (False, True)],
             "reach": ["child", "may"]},
            {"fn": "parent", "cases": [{"user": u, "group": g, "n": k} for u, g in (("someone", "staff"), (None, None)) for k in (1, 2)],
             "reach": ["parent"], "hang": True, "max_steps": 30000},
        ]}
