"""C27: device details and tags are reported until acknowledged, then only on change; disk use hourly."""
import subprocess
from props.agent import *
from sxenv.fs import fs
from sxenv import fs as fsenv
from sx import sched
from dataplicity._version import __version__

P_FAIL = ["accept", "auth error", "call error", "auth missing", "call missing", "empty", "unreachable", "read fails",
        "not a list", "not json", "no ids", "both errors", "error not an object", "wrong ids"]


def kind(calls):
    k = sorted(calls)
    if k == DISK:
        return "disk"
    if k == TAG:
        return "tags"
    return "details"


def of(back, since, what):
    return [e for e in back.log[since:] if kind(e["calls"]) == what]


def only(what, answers):
    def f(calls):
        return answers if kind(calls) == what else ["accept"]
    return f


def disk(cx, n, answers, faults=False):
    """Polls at any clock readings."""
    back = Backend(cx, only("disk", answers))
    cx.st["now"] = start = cx.real("start", 0, 10 ** 6)
    agent = new_agent(cx)
    unit = cx.pick("unit", [512, 4096])
    size = []

    def statvfs(path):
        cx.check(path == "/", "the disk use is that of the root file system")
        if faults and cx.fault("statvfs"):
            size.append(None)
            raise OSError(5, "x")
        v = fsenv.Vfs()
        v.f_frsize = v.f_bsize = unit
        v.f_blocks = cx.int("blocks", 0, 10 ** 10)
        v.f_bfree = cx.int("free", 0, 10 ** 10)
        v.f_bavail = cx.int("avail", 0, 10 ** 10)
        cx.assume(And(v.f_bfree <= v.f_blocks, v.f_bavail <= v.f_bfree))
        size.append(v)
        return v

    fs().statvfs = statvfs
    due = start
    for i in range(n):
        t = cx.real("now", 0, 10 ** 6)
        if i == 0:
            cx.assume(t >= start)
        cx.st["now"] = t
        k = len(back.log)
        j = len(size)
        _, e = caught(agent.poll)
        cx.check(e is None, "a poll does not fail")
        new = of(back, k, "disk")
        failed = [s for s in size[j:] if s is None]
        if due is not None and t >= due:
            if not failed:
                cx.check(len(new) == 1, "disk use is reported at the first poll after an hour has passed")
            cx.reach("due")
        elif due is not None:
            cx.check(not new, "disk use is reported at most once an hour")
            cx.reach("not due")
        cx.check(len(new) <= 1, "disk use is reported once")
        if new:
            p = new[0]["calls"]["device.set_disk_space"]
            v = size[-1]
            cx.check(sorted(p) == ["disk_capacity", "disk_used"], "capacity and use are reported")
            cx.check(And(p["disk_capacity"] == v.f_blocks * unit, p["disk_used"] == (v.f_blocks - v.f_bfree) * unit),
                     "capacity and use are those of the file system")
            due = t + 3600
        elif failed and due is not None and t >= due:
            due = None if due is None else None         # tried and failed: soon again or in an hour
            return
    cx.reach("disk")


def tags(cx, n, answers, scripts):
    """Polls with any output of the tag script and any answers."""
    back = Backend(cx, only("tags", answers))
    agent = new_agent(cx)
    names = [cx.chars("tag", 2, 97, 122) for _ in range(2)]
    acked = None
    for i in range(n):
        s = cx.pick("script", scripts)
        if s == "missing":
            f = fs().peek(TAGS)
            if f is not None:
                fs().detach(f)
        elif fs().peek(TAGS) is None:
            fs().put(TAGS, b"#!")
        want = {"missing": [], "cannot run": [], "one": names[:1], "two": list(names), "other": names[1:],
                "none": [], "twice": [names[0], names[0]], "fails": None}[s]

        def output(args, s=s, want=want):
            if s == "fails":
                raise subprocess.CalledProcessError(1, "x")
            if s == "cannot run":
                raise OSError(13, "x")
            r = b""
            for w in want:
                r = r + w.encode("ascii") + b"\n"
            return r

        cx.st["output"] = output
        k = len(back.log)
        _, e = caught(agent.poll)
        cx.check(e is None, "a poll does not fail")
        new = of(back, k, "tags")
        if want is None or (acked is not None and same_value(want, acked)):
            cx.check(not new, "tags the server has acknowledged, or that cannot be read, are not sent")
            cx.reach("not sent")
        else:
            cx.check(len(new) == 1, "tags the server has not acknowledged are sent, once")
            p = new[0]["calls"]["device.set_machine_defined_tags"]
            cx.check(sorted(p) == ["tag_list"] and same_value(p["tag_list"], want), "the tags sent are the device's")
            if new[0]["accepted"]:
                acked = want
                cx.reach("acknowledged")
            else:
                cx.reach("refused")
    cx.reach("tags")


def whole(cx, e, revision, model):
    c = e["calls"]
    if sorted(c) != DETAILS:
        return False
    cx.check(And(same_value(c["device.set_agent_version"], {"agent_version": __version__}),
                 same_value(c["device.set_machine_revision"], {"revision_code": revision}),
                 same_value(c["device.set_model_name"], {"model_name": model}),
                 same_value(c["device.set_os_version"], {"os_version": "name version codename"}),
                 same_value(c["device.set_uname"], {"uname": "Linux host 5.0 #1 x86_64 "}),
                 same_value(c["device.set_ip_addresses"], {"ip_list": []})), "the details are the device's")
    return True


def details(cx, n, answers, ops):
    """Polls and syncs asked for by the server, any answers, details that cannot be had at first."""
    back = Backend(cx, only("details", answers))
    agent = new_agent(cx)
    model = cx.chars("model", 1, 97, 122)
    fs().put("/proc/device-tree/model", model.encode("ascii"))
    fs().put("/proc/cpuinfo", b"Revision\t: a02082\n")
    sick = []

    def distro(name):
        if sick:
            raise RuntimeError("x")
        return name

    cx.st["distro"] = distro
    done = False
    for i in range(n):
        op = cx.pick("op", ops)
        del sick[:]
        if op == "sick":
            sick.append(1)
        k = len(back.log)
        if op == "instruction":
            drive(cx, agent.m2m.m2m_client, iter([binary(INSTRUCTION, b"s", {b"action": b"sync"})]))
        else:
            _, e = caught(agent.poll)
            cx.check(e is None, "a poll does not fail")
        new = of(back, k, "details")
        if done:
            cx.check(not new, "details the server has accepted are not sent again")
            cx.reach("quiet")
            continue
        cx.check(len(new) <= 1, "details are sent once in a poll")
        if op != "sick":
            cx.check(len(new) == 1 and whole(cx, new[0], "a02082", model),
                     "details the server has not accepted are sent at each poll")
        if new and new[0]["accepted"] and sorted(new[0]["calls"]) == DETAILS:
            whole(cx, new[0], "a02082", model)
            done = True
            cx.reach("accepted")
        else:
            cx.reach("again")
    cx.reach("details")


def lasting(cx, polls, fails, how):
    """Very many polls; the server accepts things only after very many attempts."""
    k = [0]
    back = Backend(cx, lambda calls: ["accept"] if k[0] >= fails else [how])
    back.bad = 1
    cx.st["now"] = 0.0
    agent = new_agent(cx)
    tag = cx.chars("tag", 2, 97, 122)
    fs().put(TAGS, b"#!")
    cx.st["output"] = lambda args: tag.encode("ascii") + b"\n"
    fs().put("/proc/cpuinfo", b"Revision\t: a02082\n")

    def statvfs(path):
        v = fsenv.Vfs()
        v.f_frsize = v.f_bsize = 512
        v.f_blocks, v.f_bfree, v.f_bavail = 1000 + k[0], 500, 400
        return v

    fs().statvfs = statvfs
    due = 0.0
    for n in range(polls):
        k[0] = n
        now = cx.st["now"]
        seen = len(back.log)
        agent.poll()
        disk = of(back, seen, "disk")
        cx.check(len(disk) == (1 if now >= due else 0), "disk use is reported at the first poll after an hour has passed")
        if disk:
            due = now + 3600
            cx.check(disk[0]["calls"]["device.set_disk_space"]["disk_capacity"] == 512 * (1000 + n),
                     "capacity and use are those of the file system")
        tags_ = of(back, seen, "tags")
        cx.check(len(tags_) == (1 if n <= fails else 0), "tags are sent until the server has acknowledged them")
        det = of(back, seen, "details")
        cx.check(len(det) == (1 if n <= fails else 0), "details are sent until the server has accepted them")
        cx.st["now"] = now + (1200.0 if n % 2 else 2400.0)
    tag = cx.chars("tag", 3, 97, 122)
    seen = len(back.log)
    agent.poll()
    new = of(back, seen, "tags")
    cx.check(len(new) == 1 and same_value(new[0]["calls"]["device.set_machine_defined_tags"]["tag_list"], [tag]),
             "tags the server has not acknowledged are sent, once")
    cx.reach("lasting")


def together(cx, preemptions):
    """A poll and a sync asked for by the server at the same time."""
    back = Backend(cx, only("details", ["accept", "call error"]))
    agent = new_agent(cx)
    fs().put("/proc/cpuinfo", b"Revision\t: a02082\n")
    conn = agent.m2m.m2m_client
    s = sched.Sched(cx, preemptions)
    inner = back.reply

    def reply(req):
        cx.threads.yield_point()
        r = inner(req)
        cx.threads.yield_point()
        return r

    back.srv.reply = reply
    s.spawn(agent.poll, "poll")
    s.spawn(lambda: drive(cx, conn, iter([binary(INSTRUCTION, b"s", {b"action": b"sync"})])), "m2m")
    cx.check(s.run_all(), "no deadlock")
    done = False
    for e in of(back, 0, "details"):
        cx.check(not done, "details the server has accepted are not sent again")
        done = done or e["accepted"]
    cx.check(done or len(of(back, 0, "details")) == 2, "details the server has not accepted are sent at each sync")
    cx.check(not s.crashes, "no thread fails")
    cx.reach("together")


def plan(tier):
    t = tier == "thorough"
    nice = ["accept", "call error", "unreachable"]
    tagfail = [a for a in P_FAIL if a not in ("auth error", "auth missing")]
    return {
        "bounds": "disk use: %d polls at any clock readings (backwards too), any block counts; tags: every sequence of "
                  "%d polls with script outputs of up to 2 tags of any 2 letters, missing, unrunnable or failing "
                  "script; details: every sequence of %d polls, syncs asked for by the server and polls at which the "
                  "details cannot be gathered; the server's answers from 14 kinds; %d polls the first %d of which fail; a poll and a requested sync on two "
                  "threads with %d preemptions" % (4 if t else 3, 4 if t else 3, 4 if t else 3, 3000 if t else 1150, 2000 if t else 1100,
                                                    3 if t else 2),
        "outside": "longer histories; an answer accepting tags while refusing the credentials",
        "jobs": [
            {"fn": "disk", "cases": [{"n": 4 if t else 3, "answers": nice}, {"n": 2, "answers": P_FAIL},
                                     {"n": 3, "answers": ["accept"], "faults": True}],
             "reach": ["disk", "due", "not due"], "weight": 2},
            {"fn": "tags", "cases": [
                {"n": 4 if t else 3, "answers": nice, "scripts": ["one", "other", "fails"] + (["none"] if t else
                                                                                                   [])},
                {"n": 2, "answers": tagfail, "scripts": ["one", "two", "missing"]},
                {"n": 3, "answers": ["accept", "unreachable"],
                 "scripts": ["one", "two", "twice", "missing", "cannot run"]}],
             "reach": ["tags", "not sent", "acknowledged", "refused"], "weight": 2},
            {"fn": "details", "cases": [{"n": 4 if t else 3, "answers": ["accept", "auth error"] +
                                         (["unreachable"] if t else []), "ops": ["poll", "instruction", "sick"]},
                                        {"n": 2, "answers": P_FAIL, "ops": ["poll", "instruction"] if t else
                                         ["poll"]}],
             "reach": ["details", "accepted", "again", "quiet"], "weight": 2},
            {"fn": "lasting", "cases": [{"polls": 3000 if t else 1150, "fails": 2000 if t else 1100, "how": h}
                                        for h in ("unreachable", "both errors", "not json", "call error")],
             "reach": ["lasting"], "max_steps": 8000000, "weight": 3},
            {"fn": "together", "cases": [{"preemptions": 3 if t else 2}], "reach": ["together"]},
        ]}
