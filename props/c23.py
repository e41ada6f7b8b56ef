"""C23: the published scan result is always a complete scan."""
import errno
from sx import sched
from props.rdir import *


HOOKS = ("fs_write", "fs_close", "fs_closing", "ws_send")


class Off(object):
    """No faults or observations while the harness itself looks."""

    def __init__(self, cx, f):
        self.cx, self.f = cx, f

    def __enter__(self):
        self.hook, self.f.hook = self.f.hook, None
        self.saved = {}
        for k in HOOKS:
            self.saved[k] = self.cx.st.get(k)
            self.cx.st[k] = None

    def __exit__(self, *a):
        self.f.hook = self.hook
        for k in HOOKS:
            self.cx.st[k] = self.saved[k]


def part(cx, name, n):
    """How many of n bytes: none, one, half, all but one."""
    return [0, 1, n // 2, n - 1][cx.choice(name, 4)] if n > 1 else 0


class World(object):
    def __init__(self, cx):
        self.cx = cx
        self.r = Remote(cx, {"/r/one": b"1", "/r/d/two": b"22", "/tmp/other": b"x"})
        self.f = self.r.fs
        self.st = self.r.st
        self.look = Stack(cx, self.r.rd)        # a second connection, through which the harness looks
        self.n = 0
        # what complete scans of the two trees look like when they are fetched
        self.A = self.scan_and_fetch()
        self.grow()
        self.B = self.scan_and_fetch()
        cx.check(self.A is not None and self.B is not None and self.A != self.B,
                 "a finished scan can be fetched and shows the directory as it is")
        cx.check(b"three" in self.B and b"three" not in self.A, "a finished scan lists the files")

    def grow(self):
        self.f.put("/r/d/three", b"333")

    def listing(self):
        """The files of the temporary directory after one more scan."""
        before = sorted(self.f.peek("/tmp").entries)
        self.scan()
        self.cx.check(sorted(self.f.peek("/tmp").entries) == before, "no scan leaves anything but its result")
        return before

    def shrink(self):
        self.f.detach(self.f.peek("/r/d/three"))

    def forget(self):
        """Nothing has been scanned yet."""
        d = self.f.peek("/tmp")
        for name in list(d.entries):
            if name != "other":
                self.f.detach(d.entries[name])

    def scan(self):
        """Ask for a scan and let it run; the replies."""
        k = len(self.st.ws.sent)
        self.st.deliver(binary(SCAN))
        self.st.run()
        return [p for p in self.st.packets(k) if p[0] == SCAN_R]

    def scan_and_fetch(self):
        out = self.scan()
        self.cx.check(len(out) == 1 and out[0][1] == b"", "a scan that succeeds is reported once")
        return self.fetch()

    def on_disk(self):
        """What a crash now would leave: a buffered write may have got to the disk in part, or not at all."""
        undo = []
        for h in list(self.f.handles):
            if h.dirty:
                k = part(self.cx, "on disk", len(h.node.data))
                undo.append((h.node, h.node.data))
                h.node.data = h.node.data[:k]
        return undo

    def fetch(self):
        """The scan result as the server would get it now: bytes or None."""
        k = len(self.look.ws.sent)
        uid = b"fetch%d" % self.n
        self.n += 1
        with Off(self.cx, self.f):
            undo = self.on_disk()
            threads.as_task(98, self.look.deliver, binary(OPEN_FILE, uid, b"\0scan.json"))
            p = self.look.packets(k)
            self.cx.check(len(p) == 1 and p[0][0] == OPEN_FILE_R, "fetching the scan gets one reply")
            if p[0][3] != 0:
                data = None
            else:
                threads.as_task(98, self.look.deliver, binary(READ_FILE, uid, 0, 10 ** 6))
                q = self.look.packets(k + 1)
                self.cx.check(len(q) == 1 and q[0][0] == READ_FILE_R and q[0][5] == 0, "the fetched scan can be read")
                data = q[0][4]
                self.cx.check(len(data) == p[0][2], "the fetched scan is read whole")
            for node, d in undo:
                node.data = d
        del self.look.ws.sent[k:]
        return data

    def whole(self, data, may_be_absent):
        if data is None:
            self.cx.check(may_be_absent, "a scan result once published stays available")
        else:
            self.cx.check(data == self.A or data == self.B, "the published scan result is a complete scan")


def points(cx, first, upto, faults, watch=True):
    """Look at the published result (or crash) before any file operation of a scan, with any operation failing."""
    w = World(cx)
    w.shrink()
    if first:
        w.forget()
    else:
        cx.check(w.scan_and_fetch() == w.A, "a scan of the same directory gives the same result")
    w.grow()
    look = cx.choice("look at", upto) + 1 if watch else 0
    bad = cx.choice("failing operation", faults + 1) if faults else 0
    n = [0]
    seen = []
    failed = []

    def hook(op, path, node):
        if under(path, ROOT):
            return          # what cannot be examined there is left out of a scan (C22)
        n[0] += 1
        if n[0] == look:
            data = w.fetch()
            w.whole(data, first)
            seen.append(op)
        if n[0] == bad:
            failed.append(op)
            raise fsenv.err(cx.pick("error", [errno.ENOSPC, errno.EACCES]))

    def write(h, data):
        if bad and n[0] + 1 == bad and not failed:
            # a write that fails half way
            failed.append("write")
            k = part(cx, "written", len(data))
            return data[:k], fsenv.err(errno.ENOSPC)
        return data, None

    closes = [0]
    bad_close = cx.fault("closing a file fails") if faults and not bad else False

    def close(h):
        closes[0] += 1
        if bad_close and h.canw and not failed:
            # what was still in the buffer is lost
            failed.append("close")
            k = part(cx, "flushed", len(h.node.data))
            h.node.data = h.node.data[:k]
            raise fsenv.err(errno.ENOSPC)

    def ws_send(ws, data):
        told.append(w.fetch())

    told = []
    w.f.hook = hook
    cx.st["fs_write"] = write
    cx.st["fs_closing"] = lambda h: hook("closing", h.name, h.node) if h.canw and not bad else None
    cx.st["fs_close"] = close
    cx.st["ws_send"] = ws_send
    out = w.scan()
    w.f.hook = None
    for k in HOOKS:
        cx.st[k] = None
    good = [p for p in out if p[1] == b""]
    cx.check(len(good) <= 1, "success is reported once")
    for d in told:
        if good:
            cx.check(d == w.B, "success is reported only when the new result is in place")
    data = w.fetch()
    w.whole(data, first)
    if good:
        cx.check(data == w.B, "after a success the new result is fetched")
    if not failed:
        cx.check(len(good) == 1, "a scan without failures is reported")
    cx.observe(len(out), len(failed))
    # a scan is still possible, and works
    cx.check(w.scan_and_fetch() == w.B, "after a failure, scanning works again")
    if failed:
        cx.reach("failed")
    cx.reach("scanned" if good else "no success")


def no_directory(cx):
    """The remote directory is missing during one scan."""
    w = World(cx)
    root = w.f.peek("/r")
    w.f.detach(root)
    out = w.scan()
    cx.check(not [p for p in out if p[1] == b""], "a scan that fails reports no success")
    cx.check(w.fetch() == w.B, "a scan that fails leaves the previous result available")
    w.f.attach(w.f.root, "r", root)
    w.shrink()
    cx.check(w.scan_and_fetch() == w.A, "after a failure, scanning works again")
    cx.reach("missing")


def unreadable(cx, what):
    """The remote directory cannot be listed, or is empty, during one scan."""
    w = World(cx)
    told = []
    if what == "empty":
        for name in list(w.f.peek(ROOT).entries):
            w.f.detach(w.f.peek(ROOT + "/" + name))
    error = cx.pick("error", [errno.EACCES, errno.EIO])

    def hook(op, path, node):
        if what == "unreadable" and path == ROOT and op == "scandir":
            raise fsenv.err(error)

    w.f.hook = hook
    cx.st["ws_send"] = lambda ws, data: told.append(w.fetch())
    out = w.scan()
    w.f.hook = None
    cx.st["ws_send"] = None
    good = [p for p in out if p[1] == b""]
    cx.check(len(good) <= 1 and len(told) <= 1, "a scan is reported once")
    data = w.fetch()
    if good:
        cx.check(data is not None and data != w.B and b"one" not in data and told == [data],
                 "success is reported only when the new result is in place")
    else:
        cx.check(data == w.B, "a scan that fails leaves the previous result available")
    cx.reach("reported" if good else "failed")


def no_thread(cx):
    """A scan whose thread cannot be started."""
    w = World(cx)
    w.shrink()
    cx.st["thread_fault"] = lambda t: True
    out = w.scan()
    cx.st["thread_fault"] = None
    cx.check(not [p for p in out if p[1] == b""], "a scan that does not run reports no success")
    cx.check(w.fetch() == w.B, "a scan that fails leaves the previous result available")
    cx.check(w.scan_and_fetch() == w.A, "after a failure, scanning works again")
    cx.reach("no thread")


def during_fetch(cx):
    """A scan is published while the result is being fetched."""
    w = World(cx)
    w.shrink()
    at = cx.choice("at", 8) + 1
    n = [0]
    ran = []

    def hook(op, path, node):
        n[0] += 1
        if n[0] == at:
            ran.append(op)
            with Off(cx, w.f):
                w.st.interfere(binary(SCAN))
                threads.as_task(97, w.st.run)

    w.f.hook = hook
    k = len(w.st.ws.sent)
    w.st.deliver(binary(OPEN_FILE, b"u", b"\0scan.json"))
    w.f.hook = None
    p = [x for x in w.st.packets(k) if x[0] == OPEN_FILE_R]
    cx.check(len(p) == 1 and p[0][3] == 0, "the scan result can be fetched during a scan")
    w.st.deliver(binary(READ_FILE, b"u", 0, 10 ** 6))
    q = [x for x in w.st.packets(k) if x[0] == READ_FILE_R]
    cx.check(len(q) == 1 and q[0][5] == 0, "the fetched scan can be read")
    w.whole(q[0][4], False)
    cx.check(p[0][2] == len(q[0][4]), "the size given is that of the result fetched")
    cx.reach("during" if ran else "after")


def many(cx, scans):
    """Scan after scan, some of which fail, on one connection."""
    w = World(cx)
    for i in range(scans):
        if i % 2 == 0:
            w.shrink()
        else:
            w.grow()
        if i % 5 == 3:
            error = [errno.EACCES, errno.EIO][i // 5 % 2]

            def hook(op, path, node):
                if not under(path, ROOT):
                    raise fsenv.err(error)

            w.f.hook = hook
            out = w.scan()
            w.f.hook = None
            cx.check(not [p for p in out if p[1] == b""], "a scan that fails reports no success")
            cx.check(w.fetch() == (w.A if i % 2 else w.B), "a scan that fails leaves the previous result available")
        cx.check(w.scan_and_fetch() == (w.B if i % 2 else w.A), "a finished scan shows the directory as it is")
    cx.check(sorted(w.f.peek("/tmp").entries) == w.listing() , "no scan leaves anything but its result")
    cx.reach("many")


def one_at_a_time(cx, requests, preemptions, fails):
    """Scans asked for by several threads, in any interleaving."""
    f = fsenv.fs()
    f.put("/r/one", b"1")
    s = DirectoryScanner(ROOT)
    sc = sched.Sched(cx, preemptions=preemptions)
    cur = [None]
    ended = []
    done = []
    n = [0]
    bad = cx.choice("failing operation", fails + 1) if fails else 0

    def hook(op, path, node):
        if not (under(path, ROOT) or under(path, "/tmp")):
            return
        me = sc.cur.tid
        if cur[0] != me:
            if cur[0] is not None:
                ended.append(cur[0])
            cur[0] = me
        cx.check(me not in ended, "at most one scan runs at a time")
        n[0] += 1
        if n[0] == bad:
            raise fsenv.err(errno.EACCES)
        sc.yield_point()

    f.hook = hook

    def asker():
        caught(s.perform_scan, on_success=lambda: done.append(sc.cur.tid))

    for i in range(requests):
        sc.spawn(asker, "asker %d" % i)
    cx.check(sc.run_all(), "no scan waits for ever")
    f.hook = None
    if not bad or n[0] < bad:
        cx.check(len(done) >= 1 and len(set(done)) == len(done), "each scan that ran is reported once")
        node = f.peek(SCAN_FILE)
        cx.check(node is None or node.data.startswith(b"{"), "the result is published")
    k = len(done)
    caught(s.perform_scan, on_success=lambda: done.append("again"))
    sc.run_all()
    cx.check(len(done) == k + 1, "scanning is possible again")
    cx.reach("scans")


def plan(tier):
    t = tier == "thorough"
    return {
        "bounds": ("a small tree before and after a change; the published result looked at before every file operation "
                  "of a scan (the first or a later one), with unflushed data on the disk not at all, one byte, half or all but one byte of it; any of the "
                  "first %d operations failing, writes failing after such parts, failing closes; the "
                  "directory missing; the scan's thread not starting; a scan published during any operation of a "
                  "fetch; two%s scans in all interleavings with %d preemptions" % (
                      16 if t else 10, " or three" if t else "", 3 if t else 2)) +
                  "; a life of dozens of scans, some failing",
        "outside": "loss of power (what the kernel holds in memory); more than one failure in a scan; other programs "
                   "writing the result file",
        "assumptions": ["a rename within one directory is atomic"],
        "jobs": [
            {"fn": "points", "cases": [
                {"first": False, "upto": 16 if t else 10, "faults": 0},
                {"first": True, "upto": 16 if t else 10, "faults": 0},
                {"first": False, "upto": 1, "faults": 16 if t else 10, "watch": False},
                {"first": True, "upto": 1, "faults": 16 if t else 10, "watch": False}],
             "reach": ["scanned"], "weight": 2},
            {"fn": "points", "cases": [{"first": f, "upto": 16 if t else 10, "faults": 16 if t else 10}
                                       for f in (False, True)], "reach": ["scanned"], "weight": 3},
            {"fn": "unreadable", "cases": [{"what": w} for w in ("unreadable", "empty")]},
            {"fn": "no_directory", "reach": ["missing"]},
            {"fn": "many", "cases": [{"scans": 300 if t else 60}], "reach": ["many"], "max_steps": 4000000},
            {"fn": "no_thread", "reach": ["no thread"]},
            {"fn": "during_fetch", "reach": ["during"]},
            {"fn": "one_at_a_time", "cases": [{"requests": 2, "preemptions": 3 if t else 2, "fails": 0},
                                              {"requests": 2, "preemptions": 1, "fails": 6}] + (
                                                  [{"requests": 3, "preemptions": 2, "fails": 0}] if t else []),
             "yields": ["dataplicity.directory_scanner"], "reach": ["scans"], "weight": 3},
        ]}
