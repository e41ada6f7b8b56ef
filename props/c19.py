"""C19: snapshot reads return the file as it was when opened."""
import errno
from props.rdir import *

def reply_open(cx, out, uid):
    cx.check(len(out) == 1 and out[0][0] == OPEN_FILE_R and out[0][1] == uid and len(out[0]) == 5,
             "an open request gets one reply with its own id")
    size, fail, reason = out[0][2:]
    if fail == 0:
        cx.check(reason == b"", "a served request gives no failure reason")
        return size
    cx.check(len(reason) > 0, "a failed request gives a reason")
    return None


def reply_read(cx, out, uid, off, n):
    cx.check(len(out) == 1 and out[0][0] == READ_FILE_R and out[0][1] == uid and len(out[0]) == 7,
             "a read request gets one reply with its own id")
    cx.check(out[0][2] == off and out[0][3] == n, "the reply names the offset and size asked for")
    data, fail, reason = out[0][4:]
    if fail == 0:
        cx.check(reason == b"", "a served request gives no failure reason")
        return data
    cx.check(len(reason) > 0 and data == b"", "a failed request gives a reason and no data")
    return None


def history(cx, steps, ids, acts, most):
    """Opens, reads, closes and changes of the files, in any order."""
    a, b = cx.bytes("a", 10, most), cx.bytes("b", 10, most)
    r = Remote(cx, {"/r/a": a, "/r/d/b": b})
    snaps = {}
    ids = [b"u", b"v"][:ids]
    for i in range(steps):
        act = cx.pick("act", acts)
        if act == "modify":
            node = r.fs.peek("/r/a")
            if node is not None:
                node.data = cx.bytes("changed", 10, most)
            continue
        if act == "remove":
            if r.fs.peek("/r/a") is not None:
                r.fs.detach(r.fs.peek("/r/a"))
            continue
        uid = cx.pick("id", ids)
        if act == "open" or act == "open b":
            path = "/r/a" if act == "open" else "/r/d/b"
            size = reply_open(cx, r.ask(OPEN_FILE, uid, path[3:].encode("ascii")), uid)
            node = r.fs.peek(path)
            if node is None:
                cx.check(size is None, "a missing file cannot be opened")
                snaps.pop(uid, None)
                snaps[uid] = "unknown"
            else:
                cx.check(size is not None and size == len(node.data), "a file is opened and its size is given")
                snaps[uid] = node.data
        elif act == "read":
            off, n = cx.int("offset", 10, most), cx.int("size", 10, most)
            data = reply_read(cx, r.ask(READ_FILE, uid, off, n), uid, off, n)
            if uid not in snaps:
                cx.check(data is None, "an upload that is not open cannot be read")
            elif not isinstance(snaps[uid], str):
                cx.check(data is not None and data == snaps[uid][off:off + n],
                         "a read returns exactly the bytes of the file as it was when opened")
                cx.reach("read")
        elif act == "close":
            cx.check(not r.ask(CLOSE_FILE, uid), "closing sends nothing")
            snaps.pop(uid, None)
    # what is still open can still be read
    for uid in ids:
        if uid in snaps and not isinstance(snaps[uid], str):
            data = reply_read(cx, r.ask(READ_FILE, uid, 0, most), uid, 0, most)
            cx.check(data is not None and data == snaps[uid], "an open upload can be read in full")
        elif uid not in snaps:
            cx.check(reply_read(cx, r.ask(READ_FILE, uid, 0, 1), uid, 0, 1) is None,
                     "an upload that is not open cannot be read")
    cx.observe(len(snaps))
    cx.reach("end")


def odd_reads(cx, size, offset, count):
    """Offsets and sizes in and out of range, of one read."""
    a = cx.bytes("a", *size)
    r = Remote(cx, {"/r/a": a})
    r.ask(OPEN_FILE, b"u", b"a")
    off, n = cx.int("offset", *offset), cx.int("size", *count)
    data = reply_read(cx, r.ask(READ_FILE, b"u", off, n), b"u", off, n)
    if off < 0:
        cx.check(data is None or data == b"", "nothing is returned for a negative offset")
        cx.reach("negative")
    else:
        cx.check(data is not None and data == a[off:off + n], "a read is limited to the end of the file")
        cx.check(len(data) <= n, "a read is limited to the requested size")
        cx.reach("range")


def many(cx, count, together):
    """Very many uploads, one after the other or open at the same time."""
    a = cx.bytes("a", 10, 99)
    r = Remote(cx, {"/r/a": a})
    node = r.fs.peek("/r/a")
    for k in range(count):
        uid = b"upload %d" % k
        node.data = b"content %d" % k
        cx.check(reply_open(cx, r.ask(OPEN_FILE, uid, b"a"), uid) == len(node.data), "a file is opened and its size is given")
        if not together:
            cx.check(reply_read(cx, r.ask(READ_FILE, uid, 0, 99), uid, 0, 99) == node.data,
                     "a read returns exactly the bytes of the file as it was when opened")
            r.ask(CLOSE_FILE, uid)
    node.data = a
    cx.check(reply_open(cx, r.ask(OPEN_FILE, b"u", b"a"), b"u") == len(a), "a file is opened and its size is given")
    data = reply_read(cx, r.ask(READ_FILE, b"u", 0, 99), b"u", 0, 99)
    cx.check(data is not None and data == a, "a read returns exactly the bytes of the file as it was when opened")
    for k in range(0, count, 7):
        uid = b"upload %d" % k
        data = reply_read(cx, r.ask(READ_FILE, uid, 0, 99), uid, 0, 99)
        if together:
            cx.check(data == b"content %d" % k, "an open upload can be read in full")
        else:
            cx.check(data is None, "an upload that is not open cannot be read")
    cx.reach("many")


def faults(cx, upto, most):
    """The k-th file operation fails."""
    a = cx.bytes("a", 0, most)
    r = Remote(cx, {"/r/a": a})
    n = [0]
    bad = cx.choice("failing operation", upto) + 1
    error = cx.pick("error", [fsenv.err(errno.EIO), fsenv.err(errno.ENOSPC), ValueError("x"), MemoryError()])
    hit = []

    def hook(op, path, node):
        n[0] += 1
        if n[0] == bad:
            hit.append(op)
            raise error

    def fs_write(f, data):
        # the failing write may store a part
        return data, None

    r.fs.hook = hook
    size = reply_open(cx, r.ask(OPEN_FILE, b"u", b"a"), b"u")
    if size is None:
        cx.check(bool(hit), "an open fails only if something failed")
        cx.reach("open failed")
    else:
        cx.check(size == len(a), "the size is the file's")
        data = reply_read(cx, r.ask(READ_FILE, b"u", 0, most), b"u", 0, most)
        if data is None:
            cx.check(bool(hit), "a read fails only if something failed")
            cx.reach("read failed")
        else:
            cx.check(data == a, "what is read is the file as it was when opened")
            cx.reach("served")
        r.ask(CLOSE_FILE, b"u")
    r.fs.hook = None
    # later requests work
    size = reply_open(cx, r.ask(OPEN_FILE, b"v", b"a"), b"v")
    cx.check(size is not None and size == len(a), "a failure does not prevent later opens")
    data = reply_read(cx, r.ask(READ_FILE, b"v", 0, most), b"v", 0, most)
    cx.check(data is not None and data == a, "a failure does not prevent later reads")
    cx.observe(hit)


def partial(cx, most):
    """The disk fills up while the snapshot is made."""
    a = cx.bytes("a", 1, most)
    r = Remote(cx, {"/r/a": a})
    k = cx.int("stored", 0, most)
    cx.assume(k < len(a))

    def fs_write(f, data):
        return data[:k], fsenv.err(errno.ENOSPC)

    cx.st["fs_write"] = fs_write
    size = reply_open(cx, r.ask(OPEN_FILE, b"u", b"a"), b"u")
    cx.check(size is None, "a partial snapshot is a failed open")
    cx.reach("partial")


def missing(cx):
    """Things that cannot be opened."""
    r = Remote(cx, {"/r/a": b"x", "/r/d": None})
    path = cx.pick("path", [b"none", b"d", b"", b"/", b"a/x", b"\0other", b"\0", b"a\0", b"\0scan.json"])
    size = reply_open(cx, r.ask(OPEN_FILE, b"u", path), b"u")
    cx.check(size is None, "a file that cannot be opened is a failed open")
    cx.check(reply_read(cx, r.ask(READ_FILE, b"u", 0, 9), b"u", 0, 9) is None, "and cannot be read")
    cx.check(not r.ask(CLOSE_FILE, b"u"), "closing it is harmless")
    cx.reach("missing")


def neighbours(cx, first, second, steps):
    """Two uploads with any different ids."""
    a, b = cx.bytes("a", 10, 99), cx.bytes("b", 10, 99)
    r = Remote(cx, {"/r/a": a, "/r/d/b": b})
    u, v = cx.cells("id", first, 0, 127), cx.cells("other", second, 0, 127)
    for x in (u, v):
        for i in range(len(x)):
            cx.assume(x[i] != 0)
            cx.assume(x[i] != 47)
        cx.assume(x != b".")
        cx.assume(x != b"..")
    cx.assume(u != v)
    size = reply_open(cx, r.ask(OPEN_FILE, u, b"a"), u)
    cx.check(size is not None and size == len(a), "a file is opened and its size is given")
    for step in steps:
        if step == "open":
            size = reply_open(cx, r.ask(OPEN_FILE, v, b"d/b"), v)
            cx.check(size is not None and size == len(b), "a file is opened and its size is given")
        elif step == "fail":
            cx.check(reply_open(cx, r.ask(OPEN_FILE, v, b"missing"), v) is None, "a missing file cannot be opened")
        else:
            cx.check(not r.ask(CLOSE_FILE, v), "closing sends nothing")
    data = reply_read(cx, r.ask(READ_FILE, u, 0, 99), u, 0, 99)
    cx.check(data is not None and data == a, "an upload is not affected by other uploads")
    data = reply_read(cx, r.ask(READ_FILE, v, 0, 99), v, 0, 99)
    if steps[-1] == "open":
        cx.check(data is not None and data == b, "each upload has its own content")
    elif steps[-1] == "close":
        cx.check(data is None, "a closed upload cannot be read")
    cx.reach("neighbours")


def odd_name(cx, n, lead):
    """Files of any name: the very file named is opened."""
    name = lead.encode("ascii") + cx.cells("name", n, 1, 126)
    for x in (b"..", b"."):
        cx.assume(name != x)
    for i in range(len(name)):
        cx.assume(name[i] != 47)
    r = Remote(cx, {"/r/" + name.decode("ascii"): b"this"})
    size = reply_open(cx, r.ask(OPEN_FILE, b"u", name), b"u")
    cx.check(size is not None and size == 4, "the file named is opened")
    data = reply_read(cx, r.ask(READ_FILE, b"u", 0, 9), b"u", 0, 9)
    cx.check(data is not None and data == b"this", "the file named is read")
    cx.reach("named")


def changing(cx, upto, most):
    """The file changes while it is being copied."""
    a, b = cx.bytes("a", 0, most), cx.bytes("changed", 0, most)
    r = Remote(cx, {"/r/a": a})
    node = r.fs.peek("/r/a")
    n = [0]
    when = cx.choice("operation", upto) + 1

    def hook(op, path, nd):
        n[0] += 1
        if n[0] == when:
            node.data = b

    r.fs.hook = hook
    size = reply_open(cx, r.ask(OPEN_FILE, b"u", b"a"), b"u")
    r.fs.hook = None
    node.data = b
    if size is not None:
        data = reply_read(cx, r.ask(READ_FILE, b"u", 0, 2 * most), b"u", 0, 2 * most)
        cx.check(data is not None and size == len(data), "the size is that of what can then be read")
        again = reply_read(cx, r.ask(READ_FILE, b"u", 0, 2 * most), b"u", 0, 2 * most)
        cx.check(again is not None and again == data, "what can be read does not change")
        cx.reach("changed")


def plan(tier):
    t = tier == "thorough"
    m = 300000
    return {
        "bounds": "one read of any offset up to %d (and negative) and any size up to %d of a file of any content of up to %d bytes, of files of 100,000 to 999,999, of 5,000,000 to 5,000,999 and of 20,000,000 to 20,000,999 bytes, at offsets up to 99, or 100,000 to 999,999, and any size of that order; offsets and sizes just above 2^31, 2^32, 2^53; 1100 uploads one after the other and at once; every history of %d opens, reads, "
                  "closes, modifications and removals over two uploads and two files (contents, offsets and sizes of 10 to 99); any one of the first %d file "
                  "operations failing with four kinds of error; any part stored before the disk is full; the file changing once "
                  "at any of these operations; two uploads with any different ids of 1-2 and of 1 and 5 characters "
                  "(quick; up to 7 thorough); files named by any 1-3 characters or with special leading characters" % (
                      600000 if t else 9999, 600000 if t else 9999, 300000 if t else 999,
                      4 if t else 3, 14 if t else 10),
        "outside": "the file changing more than once while it is being copied; negative read sizes; two failures",
        "jobs": [
            {"fn": "history", "cases": [
                {"steps": 4 if t else 3, "ids": 1, "acts": ["open", "open b", "read", "close", "modify", "remove"],
                 "most": 99},
                {"steps": 4 if t else 3, "ids": 2, "acts": ["open", "open b", "close"], "most": 99},
                {"steps": 4 if t else 3, "ids": 2, "acts": ["open", "modify", "read"], "most": 99}],
             "reach": ["end"], "weight": 3},
            {"fn": "odd_reads", "cases": [
                {"size": (0, m if t else 999), "offset": (-2 * m if t else -9999, 2 * m if t else 9999),
                 "count": (0, 2 * m if t else 9999)},
                {"size": (100000, 999999), "offset": (10, 99), "count": (100000, 999999)},
                {"size": (5000000, 5000999), "offset": (100000, 999999), "count": (1000000, 9999999)},
                {"size": (20000000, 20000999), "offset": (10, 99), "count": (20000000, 30000000)},
                {"size": (10, 99), "offset": (10, 99), "count": (1 << 31, (1 << 31) + 99)},
                {"size": (10, 99), "offset": (10, 99), "count": (1 << 32, (1 << 32) + 99)},
                {"size": (10, 99), "offset": (1 << 31, (1 << 31) + 99), "count": (10, 99)},
                {"size": (10, 99), "offset": (1 << 32, (1 << 32) + 99), "count": (10, 99)},
                {"size": (10, 99), "offset": (1 << 53, (1 << 53) + 99), "count": (10, 99)}]},
            {"fn": "faults", "cases": [{"upto": 14 if t else 10, "most": m}]},
            {"fn": "many", "cases": [{"count": 1100, "together": x} for x in (False, True)], "reach": ["many"],
             "max_steps": 4000000},
            {"fn": "partial", "cases": [{"most": m}], "reach": ["partial"]},
            {"fn": "missing", "reach": ["missing"]},
            {"fn": "changing", "cases": [{"upto": 14 if t else 10, "most": m}], "reach": ["changed"]},
            {"fn": "neighbours", "cases": [{"first": i, "second": j, "steps": st}
                                           for i, j in ([(1, 1), (1, 2), (2, 1), (1, 5), (5, 1), (2, 2), (3, 2), (3, 7), (7, 3)] if t else
                                                        [(1, 1), (1, 2), (2, 1), (1, 5), (5, 1)])
                                           for st in (["open"], ["close"], ["open", "close"], ["fail"])],
             "reach": ["neighbours"]},
            {"fn": "odd_name", "cases": [{"n": n, "lead": l} for n, l in
                                         [(1, ""), (2, ""), (3, ""), (0, "%41"), (0, "$HOME"), (0, "~root"),
                                          (0, "${x}"), (1, "$"), (1, "~"), (2, "%"), (0, "*"), (0, "[a]"),
                                          (0, "\\x41"), (0, "a\\..\\b"), (0, "a.."), (0, "..."), (1, "a."),
                                          (1, "a ")]],
             "reach": ["named"]},
        ]}
