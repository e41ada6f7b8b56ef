"""C18: pushed files land only inside the remote directory and overwrite nothing."""
import errno
from props.rdir import *

WORLD = {"/r/f": b"mine", "/r/d/g.t": b"deeper", "/s": b"secret", "/rs": b"secret", "/var/tmp/s": b"secret",
         "/q/x": b"other", DOWNS + "/old": b"another download", DOWNS + "/d/x": b"not a download"}


def judge(cx, r, before, own):
    """own: names of staging files this push may change (all others stay)"""
    for op, p in r.touched():
        if op in ("open-r", "read", "rename-from", "remove"):
            cx.check(directly_in(cx, p, DOWNS), "only staging files are read, moved or removed")
        elif op == "mkdir":
            cx.check(p == DOWNS, "only the downloads directory is created")
        elif op == "rename-to":
            cx.check(under(p, ROOT) and not p == ROOT, "the finished file appears only under the remote directory")
        else:
            cx.check(directly_in(cx, p, DOWNS) or (under(p, ROOT) and op == "create" or op == "write" and
                                                   under(p, ROOT)),
                     "only staging files and the finished file are written")
    after = r.tree((DOWNS,))
    for p in before:
        cx.check(p in after and after[p] == before[p], "no existing file is changed, replaced or removed")
    for p in after:
        cx.check(p in before or under(p, ROOT), "a new file appears only under the remote directory")
    return [p for p in after if p not in before]


def target(cx, n, lead, move):
    """Any target path."""
    r = Remote(cx, WORLD)
    path = lead.encode("ascii") + cx.cells("path", n, 0, 127)
    before = r.tree((DOWNS,))
    if move:
        # another file system: the rename fails and the data is copied
        def hook(op, p, node):
            if op == "rename-to":
                raise fsenv.err(errno.EXDEV)
        r.fs.hook = hook
    out = r.ask(WRITE_FILE, b"id1", path, b"", 0, b"data", 1)
    new = judge(cx, r, before, ["id1"])
    cx.check(len(out) == 1 and out[0][0] == WRITE_FILE_R and out[0][1] == b"id1", "one reply with the id")
    failed = out[0][5] != 0
    cx.observe(out[0][5], len(new))
    comps = [c for c in path.split(b"/") if c]
    depth, climbs = 0, False
    for c in comps:
        if c == b"..":
            depth -= 1
            if depth < 0:
                climbs = True
        elif not c == b".":
            depth += 1
    if climbs:
        cx.reach("escaping")
    elif failed:
        cx.check(not new, "a push that failed leaves no file")
        cx.reach("failed")
    else:
        cx.check(len(new) == 1 and r.fs.peek(new[0]).data == b"data", "the file is delivered, once")
        cx.check(r.fs.peek(DOWNS + "/id1") is None, "the staging file is gone")
        cx.reach("delivered")


def ids(cx, n, lead):
    """Any id."""
    r = Remote(cx, WORLD)
    i = lead.encode("ascii") + cx.cells("id", n, 0, 127)
    before = r.tree((DOWNS,))
    out = r.ask(WRITE_FILE, i, b"new", b"", 0, b"data", 0)
    new = judge(cx, r, before, None)
    cx.check(not new, "nothing appears before the final chunk")
    cx.check(r.fs.peek(DOWNS + "/d/x").data == b"not a download", "staging files are directly in their directory")
    cx.check(len(out) == 1 and out[0][0] == WRITE_FILE_R and out[0][1] == i, "one reply with the id")
    name = i.decode("ascii")
    if "/" in name or name == ".." or name == "." or len(name) == 0:
        cx.check(out[0][5] != 0, "an id that is not a plain name is refused")
        cx.check(not [t for t in r.touched() if t[0] != "mkdir"], "a refused id touches no file")
        cx.reach("refused")
    elif out[0][5] == 0:
        cx.reach("staged")


def device(cx, n, lead, final):
    """Any staging path sent by the server."""
    r = Remote(cx, WORLD)
    d = lead.encode("ascii") + cx.cells("device_path", n, 1, 127)
    before = r.tree((DOWNS,))
    out = r.ask(WRITE_FILE, b"old", b"new", d, 0, b"data", final)
    new = judge(cx, r, before, None)
    cx.check(r.fs.peek(DOWNS + "/d/x") is not None and r.fs.peek(DOWNS + "/d/x").data == b"not a download",
             "staging files are directly in their directory")
    cx.check(len(out) == 1 and out[0][0] == WRITE_FILE_R and out[0][1] == b"old", "one reply with the id")
    if out[0][5] == 0:
        cx.check(len(new) == (1 if final else 0), "success means it is delivered")
        cx.reach("accepted")
    else:
        cx.check(not new, "failure means it is not delivered")
        cx.reach("refused")


def taken(cx, name, where, upto, dirs):
    """The requested name and any of its variants may be taken."""
    free = None
    files = dict(WORLD)
    data = cx.pick("data", [b"data", b""])
    base, dot, ext = name.partition(".")
    names = [name] + ["%s(%d)%s%s" % (base, k, dot, ext) for k in range(1, upto)]
    for k, x in enumerate(names):
        kind = cx.pick("taken", ["file", "dir", "link", "free"] if dirs else ["file", "same", "link", "free"])
        p = where + "/" + x
        if kind == "file":
            files[p] = b"existing " + x.encode("ascii")
        elif kind == "same":
            files[p] = data
        elif kind == "dir":
            files[p + "/inner"] = b"inner"
        elif kind == "link":
            files[p] = ("link", "/q/nothing")
        elif free is None:
            free = p
    r = Remote(cx, files)
    before = r.tree((DOWNS,))
    move = cx.fault("other file system")
    if move:
        def hook(op, p, node):
            if op == "rename-to":
                raise fsenv.err(errno.EXDEV)
        r.fs.hook = hook
    out = r.ask(WRITE_FILE, b"id1", (where[2:] + "/" + name).encode("ascii"), b"", 0, data, 1)
    new = judge(cx, r, before, None)
    cx.check(out[0][5] == 0, "a push succeeds while there is a free name")
    cx.check(len(new) == 1 and r.fs.peek(new[0]).data == data, "the file is delivered once")
    cx.observe(new[0])
    if free == where + "/" + name:
        cx.check(new == [free], "a free name is used as requested")
        cx.reach("as requested")
    else:
        left = new[0][len(where) + 1:] if under(new[0], where) else ""
        cx.check(left.startswith(base) and left.endswith(ext) and any(c in "0123456789" for c in left),
                 "a taken name is varied by a number, in the same directory")
        cx.reach("variant")


def exhausted(cx, count):
    """However many names are taken (every one, when count is None), no existing file changes."""
    r = Remote(cx, WORLD)
    made = []

    def oracle(d, name):
        if d.path() == ROOT and name.startswith("a") and (count is None or len(made) < count):
            n = fsenv.Node(r.fs, "file", b"existing %d" % len(made))
            made.append((n, name))
            return n
        return None

    r.fs.oracle = oracle
    before = r.tree((DOWNS,))
    data = cx.cells("data", 2)
    move = cx.fault("other file system")
    if move:
        def hook(op, p, node):
            if op == "rename-to":
                raise fsenv.err(errno.EXDEV)
        r.fs.hook = hook
    out = r.ask(WRITE_FILE, b"id1", b"a.b", b"", 0, data, 1)
    r.fs.oracle = None
    for k, (n, name) in enumerate(made):
        cx.check(r.fs.peek(ROOT + "/" + name) is n and n.data == b"existing %d" % k,
                 "no existing file is changed, replaced or removed")
        before[ROOT + "/" + name] = n.data
    new = judge(cx, r, before, None)
    if out[0][5] == 0:
        cx.check(len(new) == 1 and r.fs.peek(new[0]).data == data, "the file is delivered once")
    else:
        cx.check(not new, "a failed push leaves everything as it was")
    cx.reach("free" if out[0][5] == 0 else "none free")


def deep(cx, part, times, up, n):
    """Target paths of many parts that climb out at their end."""
    r = Remote(cx, WORLD)
    path = part.encode("ascii") * times + b"../" * up + cx.cells("path", n, 0, 127)
    before = r.tree((DOWNS,))
    out = r.ask(WRITE_FILE, b"id1", path, b"", 0, b"data", 1)
    new = judge(cx, r, before, None)
    cx.check(len(out) == 1 and out[0][0] == WRITE_FILE_R and out[0][1] == b"id1", "one reply with the id")
    cx.observe(out[0][5])
    cx.reach("deep")


def plan(tier):
    t = tier == "thorough"
    n = 6 if t else 5
    return {
        "bounds": "all ASCII target paths of up to %d characters, also after '../', 'd/', '/', 'd/../..', and the "
                  "path of the remote directory itself, by rename and across file systems; all ASCII ids of up to %d "
                  "characters and after '../' and '/'; all ASCII staging paths of up to %d characters and after the "
                  "downloads directory's own path; every combination of a name and its first %d variants being taken "
                  "by files, directories or symbolic links whose target does not exist; 1, 16, 64 and 99 names taken, and every name taken; paths of "
                  "20, 300 and 1500 parts that climb out at their end" % (n, n, n, 4 if t else 3),
        "outside": "longer paths; symbolic links to directories inside the remote directory (the containment is lexical); another "
                   "process creating the file between the test for its existence and the rename",
        "jobs": [
            {"fn": "target", "cases": [{"n": k, "lead": "", "move": False} for k in range(0, n + 1)] +
                                      [{"n": k, "lead": l, "move": m} for k in (0, 1, 2, 3) for m in (False, True)
                                       for l in ("../", "/../", "d/", "d/../..", "..", "/q/../", "/r/")]},
            {"fn": "ids", "cases": [{"n": k, "lead": "", } for k in range(0, n + 1)] +
                                   [{"n": k, "lead": l} for k in (0, 1, 2) for l in ("../", "/", "d/", "../s", "/s")]},
            {"fn": "device", "cases": [{"n": k, "lead": "", "final": f} for k in range(0, n) for f in (0, 1)] +
                                      [{"n": k, "lead": l, "final": f} for k in (0, 1, 2, 3) for f in (0, 1) for l in
                                       ("/var/tmp/dataplicity_remote_downloads",
                                        "/var/tmp/dataplicity_remote_downloads/",
                                        "/var/tmp/dataplicity_remote_downloads/../", "/r/", "/s", "../s",
                                        "/var/tmp/dataplicity_remote_downloads/d/")]},
            {"fn": "taken", "cases": [{"name": "a.b", "where": "/r", "upto": 4 if t else 3, "dirs": True},
                                      {"name": "a", "where": "/r", "upto": 4 if t else 3, "dirs": False},
                                      {"name": "h.t", "where": "/r/d", "upto": 4 if t else 3, "dirs": False}]},
            {"fn": "exhausted", "cases": [{"count": k} for k in (1, 16, 64, 99)], "reach": ["free"],
             "max_steps": 2000000},
            {"fn": "exhausted", "cases": [{"count": None}], "reach": ["none free"], "max_steps": 2000000},
            {"fn": "deep", "cases": [{"part": "d/", "times": k, "up": k + 1, "n": 1} for k in (20, 300, 1500)] +
                                    [{"part": p, "times": k, "up": 1, "n": 1} for k in (20, 300, 1500)
                                     for p in ("./", "/")], "reach": ["deep"], "max_steps": 2000000},
        ]}
