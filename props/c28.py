"""C28: the agent's main loop survives every failure and stops only when asked."""
import subprocess
from props.agent import *
from sxenv.fs import fs
from sxenv import fs as fsenv

STOP = [KeyboardInterrupt(), SystemExit(3)]
ORDINARY = ERRORS + [subprocess.CalledProcessError(1, "x"), MemoryError(), RecursionError("x"), EOFError()]


class World(object):
    """The steps of a poll, each of which may fail in any way."""

    def __init__(self, cx, errors, budget, stops):
        self.cx = cx
        self.errors = errors
        self.budget = budget            # how many failures
        self.stops = stops              # may a step be interrupted?
        self.seen = []                  # steps of this poll
        self.stopped = False
        self.polls = 0
        self.back = Backend(cx, ["accept"])
        self.open = cx.st["urlopen"]
        cx.st["urlopen"] = self.urlopen
        cx.st["output"] = self.output
        cx.st["distro"] = self.distro
        fs().put(TAGS, b"#!")
        fs().statvfs = self.statvfs
        self.accepted = False

    def trouble(self, where):
        cx = self.cx
        if self.budget > 0 and not self.stopped:
            k = cx.choice(where, 1 + len(self.errors) + (len(STOP) + 1 if self.stops else 0))
            if k:
                self.budget -= 1
                k -= 1
                if k < len(self.errors):
                    raise self.errors[k]
                k -= len(self.errors)
                self.stopped = True
                if k == len(STOP):
                    self.agent.exit()
                    return
                self.cut = True
                raise STOP[k]

    def statvfs(self, path):
        self.seen.append("disk")
        self.trouble("disk")
        v = fsenv.Vfs()
        v.f_blocks, v.f_bfree, v.f_bavail, v.f_frsize, v.f_bsize = 100, 50, 40, 512, 512
        return v

    def output(self, args):
        self.seen.append("tags")
        self.trouble("tags")
        return b"tag"

    def distro(self, name):
        if name == "name":
            self.trouble("details")
        return name

    def urlopen(self, url, data):
        req = parse_json(data.decode("utf-8"))
        m = [c["method"] for c in req]
        if "device.set_disk_space" in m:
            what = "disk sent"
        elif "device.set_machine_defined_tags" in m:
            what = "tags sent"
        else:
            what = "sync"
        self.seen.append(what)
        self.back.answers = ["accept"]
        self.trouble(what)
        if self.budget > 0 and not self.stopped and cx.fault("refused"):
            self.budget -= 1
            self.back.answers = [cx.pick("refusal", ["auth error", "call error"])]
        n = len(self.back.log)
        r = self.open(url, data)
        if what == "sync" and self.back.log[n]["accepted"] and len(m) == 7:
            self.accepted = True
        return r


def forever(cx, n, budget, errors, stops):
    errs = ORDINARY if errors == "all" else [ValueError("x"), OSError(5, "x")]
    cx.st["now"] = 0.0
    w = World(cx, errs, budget, stops)
    agent = w.agent = new_agent(cx)
    w.cut = w.idle = False
    closes = []
    agent.close = lambda: closes.append(1)
    st = {"waits": 0}

    def looked():
        # the poll that just ended
        w.polls += 1
        seen = w.seen
        if not w.cut:
            cx.check("disk" in seen, "the disk step runs at every poll it is due, whatever failed")
            cx.check("tags" in seen, "the tag step runs at every poll, whatever failed")
            cx.check(w.done_before or "sync" in seen or w.accepted, "the sync step runs at every poll, whatever failed")
        w.done_before = w.accepted
        w.seen = []

    w.done_before = False

    def wait(ev, timeout):
        looked()
        cx.check(not closes, "the agent does not shut down while it runs")
        cx.check(ev is agent.exit_event, "the loop waits for the exit request")
        cx.check(timeout is not None and timeout > 0, "the loop waits for a bounded time")
        cx.st["now"] = cx.st["now"] + 4000.0
        if w.stopped:
            cx.check(ev.is_set(), "an interrupt ends the loop")
            return True
        k = cx.pick("then", ["go on", "exit", "interrupt", "system exit"]) if w.polls < n else "exit"
        if k == "go on":
            return False
        w.stopped = True
        w.idle = True
        if k == "exit":
            agent.exit()
            return ev.is_set()
        w.cut = True
        raise STOP[0 if k == "interrupt" else 1]

    cx.st["event_wait"] = wait
    done = False
    try:
        agent.run_forever()
        done = True
    except BaseException as e:
        if not isinstance(e, (KeyboardInterrupt, SystemExit, Exception)):
            raise
    cx.check(w.stopped, "the agent goes on polling until it is asked to stop")
    cx.check(done, "the main loop ends without an error")
    cx.check(len(closes) == 1, "the agent shuts down exactly once")
    if w.idle:
        cx.check(not w.seen, "no poll starts once the agent was asked to stop")
    for t in cx.st["started"]:
        cx.check(not t.is_alive(), "the clock watch is stopped")
    cx.check(len(cx.st["started"]) == 1, "one clock watch runs")
    cx.observe(w.polls)
    cx.reach("stopped")
    if w.polls >= n:
        cx.reach("all polls")


def poll_once(cx, errors, budget):
    """One poll with any combination of failing steps, then another one."""
    cx.st["now"] = 0.0
    w = World(cx, [ValueError("x")] if errors == "one" else ORDINARY, budget, False)
    agent = w.agent = new_agent(cx)
    for i in range(2):
        before = w.accepted
        w.seen = []
        _, e = caught(agent.poll)
        cx.check(e is None, "a poll does not fail")
        cx.check("disk" in w.seen and "tags" in w.seen, "the other steps run whatever failed")
        cx.check(before or "sync" in w.seen or w.accepted, "the sync step runs whatever failed")
        cx.st["now"] = cx.st["now"] + 4000.0
    w.budget = 0
    w.seen = []
    before = w.accepted
    _, e = caught(agent.sync)
    cx.check(e is None and (before or "sync" in w.seen), "a sync that fails leaves later syncs possible")
    cx.reach("poll")


def lasting(cx, polls, step):
    """Very many polls at which the same step fails."""
    cx.st["now"] = 0.0
    w = World(cx, [], 0, False)
    agent = w.agent = new_agent(cx)
    err = cx.pick("error", [OSError(5, "x"), ValueError("x")])
    closes = []
    agent.close = lambda: closes.append(1)
    n = [0]

    def trouble(where):
        if where == step and n[0] < polls:
            raise err

    w.trouble = trouble

    def wait(ev, timeout):
        cx.check("disk" in w.seen and "tags" in w.seen, "the other steps run whatever failed")
        cx.check(step != "details" and w.accepted or step in ("sync", "details") or "sync" in w.seen,
                 "the sync step runs at every poll, whatever failed")
        cx.check(not closes, "the agent does not shut down while it runs")
        w.seen = []
        n[0] += 1
        cx.st["now"] = cx.st["now"] + 4000.0
        if n[0] > polls + 1:
            agent.exit()
            return ev.is_set()
        cx.check(not ev.is_set(), "the agent goes on polling until it is asked to stop")
        return False

    cx.st["event_wait"] = wait
    agent.run_forever()
    cx.check(n[0] > polls, "the agent goes on polling until it is asked to stop")
    cx.check(w.accepted, "a step that failed works when its cause is gone")
    cx.check(len(closes) == 1, "the agent shuts down exactly once")
    cx.reach("lasting")


def steps(cx, polls):
    """The steps themselves, as far as they are separate methods, fail in any combination and at any poll."""
    cx.st["now"] = 0.0
    w = World(cx, [], 0, False)
    agent = w.agent = new_agent(cx)
    names = [n for n in ("disk_poll", "tag_poll", "_sync") if hasattr(agent, n)]
    ran = []

    def wrap(name, real):
        def step():
            ran.append(name)
            k = cx.choice(name, 1 + len(ORDINARY)) if cx.st["now"] == 0.0 and len(bad) == 0 else cx.choice(name, 2)
            if k:
                bad.append(name)
                raise ORDINARY[k - 1]
            return real()
        return step

    bad = []
    for n in names:
        setattr(agent, n, wrap(n, getattr(agent, n)))
    for i in range(polls):
        del ran[:]
        done = w.accepted
        _, e = caught(agent.poll)
        cx.check(e is None, "a poll does not fail")
        for n in names:
            cx.check(ran.count(n) == 1 or (n == "_sync" and n not in ran and done),
                     "the other steps run whatever failed")
        cx.st["now"] = cx.st["now"] + 4000.0
    cx.observe(len(bad))
    cx.reach("steps")


def plan(tier):
    t = tier == "thorough"
    return {
        "bounds": "up to %d polls with up to %d failures (any of %d exception types for one of them), each at any of 6 "
                  "points (disk figures, tag script, details, each of the three requests, which may also be refused); interrupts, system exit "
                  "and exit requests at each of these points and between polls; every combination of up to %d "
                  "failures in two polls; every combination of failing steps in %d polls; %d polls in a row at which one step fails" % (
                      4 if t else 3, 2, 17, 4 if t else 3, 3 if t else 2, 3000 if t else 1100),
        "outside": "more polls; failures of the interpreter itself; interrupts at other instructions",
        "jobs": [
            {"fn": "forever", "cases": [
                {"n": 4 if t else 3, "budget": 1, "errors": "two", "stops": True},
                {"n": 2, "budget": 2, "errors": "two", "stops": True},
                {"n": 2 if t else 1, "budget": 1, "errors": "all", "stops": True}],
             "reach": ["stopped", "all polls"], "hang": True, "max_steps": 20000, "weight": 2},
            {"fn": "poll_once", "cases": [{"errors": "one", "budget": 4 if t else 3}], "reach": ["poll"]},
            {"fn": "lasting", "cases": [{"polls": 3000 if t else 1100, "step": s} for s in
                                        ("disk", "tags", "details", "disk sent", "tags sent", "sync")],
             "reach": ["lasting"], "hang": True, "max_steps": 8000000},
            {"fn": "steps", "cases": [{"polls": 3 if t else 2}], "reach": ["steps"]},
        ]}
