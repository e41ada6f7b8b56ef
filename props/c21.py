"""C21: snapshots never eat the last 50 MB of disk."""
import errno
from props.rdir import *
from dataplicity import disk_tools

MARGIN = 50 * 1000 * 1000


def volume(cx, big):
    blocks = cx.int("blocks", 0, big)
    bfree = cx.int("free blocks", 0, big)
    bavail = cx.int("available blocks", 0, big)
    frsize = cx.pick("fragment size", [1, 512, 1024, 4096, 65536, 1 << 20])
    cx.assume(And(bavail <= bfree, bfree <= blocks))

    def vfs(path):
        v = fsenv.Vfs()
        v.f_blocks, v.f_bfree, v.f_bavail, v.f_frsize, v.f_bsize = blocks, bfree, bavail, frsize, 7 * frsize
        return v
    return blocks, bfree, bavail, frsize, vfs


def usage(cx, big):
    """Reported disk usage."""
    blocks, bfree, bavail, frsize, vfs = volume(cx, big)
    paths = []

    def ask(path):
        paths.append(path)
        return vfs(path)

    fsenv.fs().statvfs = ask
    u = disk_tools.disk_usage("/some/volume")
    cx.check(paths == ["/some/volume"], "the volume asked about is measured")
    cx.check(u.total == blocks * frsize, "total is blocks x fragment size")
    cx.check(u.used == (blocks - bfree) * frsize, "used is (blocks - free blocks) x fragment size")
    cx.check(u.free == bavail * frsize, "free is available blocks x fragment size")
    cx.reach("usage")


def admit(cx, big, sizes):
    """A snapshot is made exactly if it leaves 50 MB of the volume free."""
    r = Remote(cx, {"/r/a": b"content"})
    blocks, bfree, bavail, frsize, vfs = volume(cx, big)
    asked = []

    def ask(path):
        asked.append(path)
        return vfs(path)

    r.fs.statvfs = ask
    size = cx.int("size", *sizes)
    r.fs.peek("/r/a").size = size
    out = r.ask(OPEN_FILE, b"u", b"a")
    cx.check(len(out) == 1, "one reply")
    made = r.fs.peek(SNAPS + "/u") is not None
    used = (blocks - bfree) * frsize
    fits = blocks * frsize - (used + size) >= MARGIN
    for p in asked:
        cx.check(under(p, "/var/tmp"), "the volume of the snapshots is measured")
    if fits:
        cx.check(made and out[0][3] == 0, "a snapshot that leaves 50 MB free is not refused")
        cx.reach("made")
    else:
        cx.check(not made and out[0][3] != 0, "a snapshot that would leave less than 50 MB is not made")
        cx.reach("refused")


def scan(cx, big, sizes):
    """The same for the scan result, which is read the same way."""
    r = Remote(cx, {SCAN_FILE: b"content"})
    blocks, bfree, bavail, frsize, r.fs.statvfs = volume(cx, big)
    size = cx.int("size", *sizes)
    r.fs.peek(SCAN_FILE).size = size
    out = r.ask(OPEN_FILE, b"u", b"\0scan.json")
    made = r.fs.peek(SNAPS + "/u") is not None
    fits = blocks * frsize - ((blocks - bfree) * frsize + size) >= MARGIN
    if fits:
        cx.check(made and out[0][3] == 0, "a snapshot that leaves 50 MB free is not refused")
        cx.reach("made")
    else:
        cx.check(not made and out[0][3] != 0, "a snapshot that would leave less than 50 MB is not made")
        cx.reach("refused")


def history(cx, n, big, sizes):
    """Several snapshots on a volume that fills up and empties in between."""
    r = Remote(cx, {"/r/a": b"content"})
    node = r.fs.peek("/r/a")
    for k in range(n):
        total, used = cx.int("total", 0, big), cx.int("used", 0, big)
        cx.assume(used <= total)

        def ask(path, total=total, used=used):
            v = fsenv.Vfs()
            v.f_blocks, v.f_bfree, v.f_bavail, v.f_frsize, v.f_bsize = total, total - used, 0, 1, 7
            return v

        r.fs.statvfs = ask
        size = cx.int("size", *sizes)
        node.size = size
        uid = cx.pick("id", [b"u", b"v"])
        before = r.fs.peek(SNAPS + "/" + uid.decode("ascii"))
        out = r.ask(OPEN_FILE, uid, b"a")
        if total - (used + size) >= MARGIN:
            cx.check(out[0][3] == 0, "a snapshot that leaves 50 MB free is not refused")
            cx.reach("made")
        else:
            cx.check(out[0][3] != 0, "a snapshot that would leave less than 50 MB is not made")
            cx.check(before is not None or r.fs.peek(SNAPS + "/" + uid.decode("ascii")) is None,
                     "a snapshot that would leave less than 50 MB is not made")
            cx.reach("refused")
        if cx.fault("closed"):
            r.ask(CLOSE_FILE, uid)


def unknown(cx):
    """Usage that cannot be determined does not stand in the way."""
    r = Remote(cx, {"/r/a": b"content"})
    e = cx.pick("error", [fsenv.err(errno.EIO), fsenv.err(errno.ENOENT), AttributeError("statvfs"), ValueError("x"),
                          OverflowError("x")])

    def ask(path):
        raise e

    r.fs.statvfs = ask
    out = r.ask(OPEN_FILE, b"u", b"a")
    cx.check(len(out) == 1 and out[0][3] == 0 and out[0][2] == 7, "the request is honoured if usage is unknown")
    cx.check(r.fs.peek(SNAPS + "/u").data == b"content", "the snapshot is made")
    cx.reach("unknown")


def plan(tier):
    t = tier == "thorough"
    return {
        "bounds": "volumes of any number of total, free and available blocks up to 2^48 with six fragment sizes, and "
                  "files and scan results of any size up to 2^50 bytes, and %d snapshots with any such values each: all values at once, decided by the solver; five ways of usage "
                  "being unknown" % (4 if t else 3),
        "outside": "fragment sizes other than 1, 512, 1024, 4096, 65536 and 2^20; the disk filling up between the "
                   "check and the copy; the percentage reported",
        "jobs": [
            {"fn": "usage", "cases": [{"big": 1 << 48}], "reach": ["usage"]},
            {"fn": "admit", "cases": [{"big": 1 << 48, "sizes": (0, 1 << 50)}], "reach": ["made", "refused"]},
            {"fn": "scan", "cases": [{"big": 1 << 48, "sizes": (0, 1 << 50)}], "reach": ["made", "refused"]},
            {"fn": "history", "cases": [{"n": 4 if t else 3, "big": 1 << 48, "sizes": (0, 1 << 50)}],
             "reach": ["made", "refused"]},
            {"fn": "unknown", "reach": ["unknown"]},
        ]}
