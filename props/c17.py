"""C17: remote file reads stay inside the remote directory and snapshot area."""
from props.rdir import *

WORLD = {"/r/f": b"inside", "/r/d/g": b"deeper", "/s": b"secret", "/rs": b"secret", "/tmp/s": b"secret",
         "/var/tmp/s": b"secret", "/var/tmp/dataplicity_remote/old": b"old snapshot",
         "/var/tmp/dataplicity_remote/d/x": b"not a snapshot", SCAN_FILE: b"{}"}


def judge(cx, r, since, scan_ok):
    for op, p in r.touched(since):
        if op in ("open-r", "read"):
            cx.check(under(p, ROOT) or directly_in(cx, p, SNAPS) or (scan_ok and p == SCAN_FILE),
                     "only the scan result, files under the remote directory and snapshots are read")
        elif op == "mkdir":
            cx.check(p == SNAPS, "only the snapshot directory is created")
        else:
            cx.check(directly_in(cx, p, SNAPS), "only files directly in the snapshot directory are written or removed")
            cx.check(op in ("create", "truncate", "write", "remove", "rename-from", "rename-to", "open-w"),
                     "nothing else is done to files")


def open_path(cx, n, lo, hi, lead):
    """Any path."""
    r = Remote(cx, WORLD)
    path = lead.encode("ascii") + cx.cells("path", n, lo, hi)
    before = r.tree((SNAPS,))
    out = r.ask(OPEN_FILE, b"up1", path)
    judge(cx, r, 0, path == b"\0scan.json")
    cx.check(r.tree((SNAPS,)) == before, "no file outside the snapshot directory changes")
    cx.check(len(out) == 1 and out[0][0] == OPEN_FILE_R and out[0][1] == b"up1", "one reply with the upload's id")
    failed = out[0][3] != 0
    cx.observe(out[0][2], out[0][3])
    # a path that climbs out is refused and touches no file
    comps = [c for c in path.split(b"/") if c]
    depth, climbs = 0, False
    for c in comps:
        if c == b"..":
            depth -= 1
            if depth < 0:
                climbs = True
        elif not c == b".":
            depth += 1
    if climbs:
        cx.check(failed and not r.touched(), "a path that escapes is refused and touches no file")
        cx.reach("refused")
    elif path == b"\0scan.json":
        cx.check(not failed and out[0][2] == 2, "the scan result can be read")
        cx.reach("scan")
    elif path == b"f" or path == b"/f":
        cx.check(not failed and out[0][2] == 6, "a file of the remote directory can be read")
        cx.reach("served")
    elif failed:
        cx.reach("refused")


def deep(cx, part, times, up, n):
    """Paths of many parts that climb out at their end, or do not."""
    r = Remote(cx, WORLD)
    path = part.encode("ascii") * times + b"../" * up + cx.cells("path", n, 0, 127)
    before = r.tree((SNAPS,))
    out = r.ask(OPEN_FILE, b"up1", path)
    judge(cx, r, 0, False)
    cx.check(r.tree((SNAPS,)) == before, "no file outside the snapshot directory changes")
    cx.check(len(out) == 1 and out[0][0] == OPEN_FILE_R and out[0][1] == b"up1", "one reply with the upload's id")
    cx.check(up == 0 or out[0][3] != 0 and not r.touched(), "a path that escapes is refused and touches no file")
    cx.observe(out[0][3])
    cx.reach("deep")


def ids(cx, n, lead, what):
    """Any upload id, for opening, reading and closing."""
    r = Remote(cx, WORLD)
    uid = lead.encode("ascii") + cx.cells("id", n, 0, 127)
    before = r.tree((SNAPS,))
    sub = r.fs.peek(SNAPS + "/d/x")
    since = len(r.fs.trace)
    if what == "open":
        out = r.ask(OPEN_FILE, uid, b"f")
        reply = OPEN_FILE_R
    elif what == "read":
        out = r.ask(READ_FILE, uid, 0, 100)
        reply = READ_FILE_R
    else:
        out = r.ask(CLOSE_FILE, uid)
        reply = None
    judge(cx, r, since, False)
    cx.check(r.tree((SNAPS,)) == before, "no file outside the snapshot directory changes")
    cx.check(r.fs.peek(SNAPS + "/d/x") is sub and sub.data == b"not a snapshot",
             "only files directly in the snapshot directory are touched")
    name = uid.decode("ascii")
    bad = "/" in name or name == ".." or name == "." or len(name) == 0
    if reply is not None:
        cx.check(len(out) == 1 and out[0][0] == reply and out[0][1] == uid, "one reply with the upload's id")
        failed = out[0][3 if what == "open" else 5] != 0
        if what == "read":
            failed = out[0][5] != 0
            if failed:
                cx.check(out[0][4] == b"", "a failed read carries no data")
        if bad:
            cx.check(failed, "an id that is not a plain name is refused with an error result")
            cx.check(not [t for t in r.touched(since) if t[0] != "mkdir"], "a refused id touches no file")
            cx.reach("refused")
        elif not failed:
            cx.reach("served")
    elif bad:
        cx.check(not [t for t in r.touched(since) if t[0] != "mkdir"], "a refused id touches no file")
        cx.reach("refused")
    else:
        cx.reach("closed")


def undecodable(cx, n, what):
    """Ids and paths that are not text."""
    r = Remote(cx, WORLD)
    x = cx.cells("bytes", n, 0, 255)
    before = r.tree((SNAPS,))
    if what == "path":
        out = r.ask(OPEN_FILE, b"up1", x)
    elif what == "open id":
        out = r.ask(OPEN_FILE, x, b"f")
    elif what == "read id":
        out = r.ask(READ_FILE, x, 0, 9)
    else:
        out = r.ask(CLOSE_FILE, x)
    judge(cx, r, 0, False)
    cx.check(r.tree((SNAPS,)) == before, "no file outside the snapshot directory changes")
    cx.check(len(out) == (0 if what == "close id" else 1), "one reply")
    cx.reach("bytes")


def plan(tier):
    t = tier == "thorough"
    n = 7 if t else 6
    m = 6 if t else 5
    return {
        "bounds": "all ASCII paths of up to %d characters, also after the prefixes 'd/', '/d/../', '..', NUL and the "
                  "special scan path; all ASCII upload ids of up to %d characters, also after '../' and '/'; all byte "
                  "strings of up to %d bytes; paths of 20, 300 and 1500 parts that "
                  "climb out at their end; a tree with files inside and outside the remote directory and the "
                  "snapshot directory" % (n, m, 3 if t else 2),
        "outside": "other longer paths; longer ids; symbolic links inside the remote directory (the containment is lexical); "
                   "looking at sizes and existence",
        "jobs": [
            {"fn": "open_path", "cases": [{"n": k, "lo": 0, "hi": 127, "lead": ""} for k in range(0, n + 1)] +
                                         [{"n": k, "lo": 0, "hi": 127, "lead": l} for l in
                                          ("d/", "/d/../", "..", "\0", "/..", "/r/", "/../", "d/../..")
                                          for k in (0, 1, 2, 3)] +
                                         [{"n": 0, "lo": 0, "hi": 127, "lead": "\0scan.json"},
                                          {"n": 1, "lo": 0, "hi": 127, "lead": "\0scan.json"},
                                          {"n": 0, "lo": 0, "hi": 127, "lead": "f"}], "weight": 1},
            {"fn": "deep", "cases": [{"part": "d/", "times": k, "up": k + 1, "n": 1} for k in (20, 300, 1500)] +
                                    [{"part": p, "times": k, "up": 1, "n": 1} for k in (20, 300, 1500)
                                     for p in ("./", "/")] +
                                    [{"part": "d/", "times": 40, "up": 0, "n": 1}],
             "reach": ["deep"], "max_steps": 2000000},
            {"fn": "ids", "cases": [{"n": k, "lead": "", "what": w} for k in range(0, m + 1)
                                    for w in ("open", "read", "close")] +
                                   [{"n": k, "lead": l, "what": w} for l in ("../", "/", "d/", "/s", "../s", "../../s",
                                                                            "/var/tmp/dataplicity_remote/")
                                    for k in (0, 1, 2) for w in ("open", "read", "close")]},
            {"fn": "undecodable", "cases": [{"n": k, "what": w} for k in range(1, 4 if t else 3)
                                            for w in ("path", "open id", "read id", "close id")], "reach": ["bytes"]},
        ]}
