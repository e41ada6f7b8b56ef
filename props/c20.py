"""C20: pushed chunks are assembled exactly and every chunk is acknowledged."""
import errno
from props.rdir import *


def ack(cx, out, uid, offset, size, dev=None):
    """One reply: True if it reports success.  dev: the staging path a failure must name."""
    cx.check(len(out) == 1 and out[0][0] == WRITE_FILE_R and len(out[0]) == 7 and out[0][1] == uid,
             "a chunk request gets one reply with its id")
    pos, n, got, fail, reason = out[0][2:]
    if fail == 0:
        cx.check(pos == offset + size, "success gives the position after the chunk")
        cx.check(n == size, "success gives the size of the chunk")
        cx.check(got == (DOWNS + "/" + uid.decode("ascii")).encode("ascii"), "success gives the staging path")
        cx.check(reason == b"", "success gives no reason")
        return True
    cx.check(len(reason) > 0, "failure gives a reason")
    if dev is not None:
        cx.check(got == dev, "failure gives the staging path")
    return False


def store(old, offset, data):
    n = len(old)
    if len(data) == 0:
        return old
    if offset > n:
        return old + b"\0" * (offset - n) + data
    return old[:offset] + data + old[offset + len(data):]


def push(cx, chunks, offsets, sizes, ids, finals="any"):
    """Chunks at any offsets, of one or two files at the same time."""
    r = Remote(cx, {"/r/d": None})
    content = {}
    delivered = {}
    done = 0
    for i in range(chunks):
        uid = [b"one", b"two"][cx.choice("file", ids)] if ids > 1 else b"one"
        off = cx.int("offset", *offsets)
        data = cx.bytes("data", *sizes) if finals == "last" or not cx.fault("empty chunk") else b""
        final = cx.choice("final", 2) if finals == "any" or i == chunks - 1 else 0
        dev = b"" if uid not in content else (DOWNS + "/" + uid.decode("ascii")).encode("ascii")
        target = b"d/" + uid + b".bin"
        ok = ack(cx, r.ask(WRITE_FILE, uid, target, dev, off, data, final), uid, off, len(data))
        cx.check(ok, "a chunk that can be stored is stored")
        content[uid] = store(content.get(uid, b""), off, data)
        files = r.tree((DOWNS,))
        if final:
            done += 1
            delivered[uid] = content.pop(uid)
            new = [p for p in files if p.startswith("/r/d/" + uid.decode("ascii"))]
            cx.check(len(new) == 1 and files[new[0]] == delivered[uid],
                     "the delivered file has each chunk's bytes at its offset and nothing else")
            cx.check(r.fs.peek(DOWNS + "/" + uid.decode("ascii")) is None, "the staging file is gone")
            # make room for a file of the same name
            r.fs.detach(r.fs.peek(new[0]))
            cx.reach("delivered")
        else:
            cx.check(not files, "nothing appears in the remote directory before the final chunk")
            cx.reach("staged")
        for u in content:
            cx.check(r.fs.peek(DOWNS + "/" + u.decode("ascii")).data == content[u],
                     "the staging file has each chunk's bytes at its offset and nothing else")
    cx.observe(done, len(content))


def faults(cx, upto, final, second):
    """The k-th file operation fails."""
    r = Remote(cx, {"/r/d": None})
    n = [0]
    bad = cx.choice("failing operation", upto) + 1
    error = cx.pick("error", [fsenv.err(errno.EIO), fsenv.err(errno.ENOSPC), fsenv.err(errno.EXDEV), ValueError("x")])
    hit = []
    data = b"0123456789"
    dev = b""

    if second:
        cx.check(ack(cx, r.ask(WRITE_FILE, b"one", b"d/f", b"", 0, data, 0), b"one", 0, 10), "stored")
        dev = (DOWNS + "/one").encode("ascii")

    def fail(op):
        n[0] += 1
        if n[0] == bad:
            hit.append(op)
            raise error

    def hook(op, path, node):
        if op != "remove" or hit:
            fail(op)

    def write(f, d):
        n[0] += 1
        if n[0] == bad:
            hit.append("write")
            k = cx.int("stored", 0, 10)
            return d[:k], error
        return d, None

    def close(f):
        if f.canw:
            fail("close")

    r.fs.hook = hook
    cx.st["fs_write"] = write
    cx.st["fs_close"] = close
    off = 4 if second else 0
    out = r.ask(WRITE_FILE, b"one", b"d/f", dev, off, data, final)
    allocated = second or "write" in hit or "rename-from" in hit or "rename-to" in hit
    ok = ack(cx, out, b"one", off, 10, (DOWNS + "/one").encode("ascii") if allocated else None)
    r.fs.hook = None
    cx.st["fs_write"] = cx.st["fs_close"] = None
    files = r.tree((DOWNS,))
    want = b"01230123456789" if second else data
    cx.observe(ok, hit)
    if not ok:
        cx.check(bool(hit), "a chunk fails only if something failed")
        cx.reach("failed")
        if final:
            # another attempt
            pass
    else:
        if final:
            cx.check(list(files.values()) == [want], "success means the file is delivered")
        else:
            cx.check(not files and r.fs.peek(DOWNS + "/one").data == want, "success means the chunk is stored")
        cx.reach("served")
    # later pushes work
    cx.check(ack(cx, r.ask(WRITE_FILE, b"two", b"g", b"", 0, b"later", 1), b"two", 0, 5),
             "a failed push does not prevent later ones")
    cx.check(r.fs.peek("/r/g") is not None and r.fs.peek("/r/g").data == b"later", "later pushes are delivered")


def many(cx, chunks, size, between):
    """One file of many chunks; other files are pushed all the while."""
    r = Remote(cx, {"/r/d": None})
    want = b""
    dev = b""
    special = cx.cells("data", 3)
    for i in range(chunks):
        data = (b"%d." % i) * size if i != chunks // 2 else special
        final = 1 if i == chunks - 1 else 0
        out = r.ask(WRITE_FILE, b"big", b"d/big.bin", dev, len(want), data, final)
        cx.check(ack(cx, out, b"big", len(want), len(data)), "a chunk that can be stored is stored")
        want = want + data
        dev = (DOWNS + "/big").encode("ascii")
        if i < between:
            uid = b"u%d" % i
            cx.check(ack(cx, r.ask(WRITE_FILE, uid, b"d/" + uid, b"", 0, uid, 1), uid, 0, len(uid)),
                     "a chunk that can be stored is stored")
            cx.check(r.fs.peek("/r/d/" + uid.decode("ascii")).data == uid, "the delivered file has each chunk's bytes")
            cx.check(r.fs.peek(DOWNS + "/" + uid.decode("ascii")) is None, "the staging file is gone")
    cx.check(r.fs.peek("/r/d/big.bin").data == want,
             "the delivered file has each chunk's bytes at its offset and nothing else")
    cx.check(r.fs.peek(DOWNS + "/big") is None, "the staging file is gone")
    cx.check(not r.fs.handles, "no file stays open")
    cx.reach("many")


def odd(cx):
    """Requests that cannot be served."""
    r = Remote(cx, {"/r/d": None})
    kind = cx.pick("kind", ["negative offset", "not staged", "gone", "bad path", "bad device", "bad id", "nul",
                            "empty not staged", "empty again", "empty nowhere", "escape"])
    dev = (DOWNS + "/one").encode("ascii")
    said = None
    data = b"data"
    if kind.startswith("empty"):
        data = b""
        if kind == "empty again":
            r.ask(WRITE_FILE, b"one", b"f", b"", 0, b"data", 1)
            r.fs.detach(r.fs.peek("/r/f"))
        elif kind == "empty nowhere":
            r.fs.detach(r.fs.peek("/r"))
            dev = b""
        req = (b"one", b"f", dev, 0, data, 1)
        said = (DOWNS + "/one").encode("ascii")
    elif kind == "escape":
        req = (b"one", b"../f", b"", 0, data, 1)
        said = dev
    elif kind == "negative offset":
        req = (b"one", b"f", b"", -1 - cx.choice("by", 2), b"data", 0)
    elif kind == "not staged":
        req = (b"one", b"f", dev, 0, b"data", 1)
    elif kind == "gone":
        r.ask(WRITE_FILE, b"one", b"f", b"", 0, b"data", 1)
        r.fs.detach(r.fs.peek("/r/f"))
        req = (b"one", b"f", dev, 4, b"more", 1)
    elif kind == "bad path":
        req = (b"one", b"\xff\xfe", b"", 0, b"data", 1)
    elif kind == "bad device":
        req = (b"one", b"f", b"\xff\xfe", 0, b"data", 0)
    elif kind == "bad id":
        req = (b"\xff\xfe", b"f", b"", 0, b"data", 0)
    else:
        req = (b"one", b"f\0", b"", 0, b"data", 1)
    out = r.ask(WRITE_FILE, *req)
    cx.check(not ack(cx, out, req[0], req[3], len(data), said), "a chunk that cannot be stored is reported as failed")
    cx.check(not r.tree((DOWNS,)), "nothing is delivered")
    cx.reach(kind)


def plan(tier):
    t = tier == "thorough"
    return {
        "bounds": ("every sequence of %d chunks of one file (any content, 10 to 99 bytes or empty, any offset from 10 to "
                  "99, overlapping or not, final or not), %d chunks of two files; two chunks of 1 to %d bytes at "
                  "offsets of 0 to %d; any one of the first %d file operations (including writes storing any part, "
                  "and closes) of a first or later, final or other chunk failing with four kinds of error" % (
                      4 if t else 3, 4 if t else 3, 9999, 9999, 14 if t else 11)) +
                  "; a file of hundreds of chunks with as many other files pushed meanwhile, and of large chunks",
        "outside": "longer sequences; the same chunk being handled by two connections at once; failures of the "
                   "clean-up itself",
        "jobs": [
            {"fn": "push", "cases": [
                {"chunks": 4 if t else 3, "offsets": (10, 99), "sizes": (10, 99), "ids": 1,
                 "finals": "last"},
                {"chunks": 4 if t else 3, "offsets": (0, 0), "sizes": (12, 12), "ids": 2},
                {"chunks": 3 if t else 2, "offsets": (10, 99), "sizes": (10, 99), "ids": 1},
                {"chunks": 2 if t else 1, "offsets": (0, 9999), "sizes": (1, 9999), "ids": 1},
                {"chunks": 3 if t else 2, "offsets": (0, 9), "sizes": (1, 9), "ids": 1, "finals": "last"},
                {"chunks": 2, "offsets": (1000000, 9999999), "sizes": (1000000, 9999999), "ids": 1}],
             "reach": ["delivered", "staged"], "weight": 3},
            {"fn": "faults", "cases": [{"upto": 14 if t else 11, "final": f, "second": s} for f in (0, 1)
                                       for s in (False, True)]},
            {"fn": "odd"},
            {"fn": "many", "cases": [{"chunks": 2000 if t else 600, "size": 1, "between": 1200 if t else 300},
                                     {"chunks": 40, "size": 20000, "between": 3}], "reach": ["many"],
             "max_steps": 4000000},
        ]}
