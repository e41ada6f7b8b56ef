"""C34: device details are parsed exactly from system data."""
import struct
import sys
from props.common import ERRORS
from sxenv.lib import And, Not, Or, caught, same_value
from sxenv.fs import fs
from sxenv import fs as fsenv
from dataplicity import rpi, iptool, device_meta
from dataplicity._version import __version__

CPU = "/proc/cpuinfo"


def is_space(c):
    return Or(c == 32, And(c >= 9, c <= 13))


def trim(b):
    i, j = 0, len(b)
    while i < j and is_space(b[i]):
        i += 1
    while j > i and is_space(b[j - 1]):
        j -= 1
    return b[i:j]


def oracle(lines):
    for l in lines:
        i = l.find(b":")
        if i < 0:
            continue
        if trim(l[:i]).lower() == b"revision":
            return trim(l[i + 1:]).lower().decode("ascii")
    return None


def build(cx, parts):
    b = b""
    for p in parts:
        if isinstance(p, str):
            b = b + p.encode("ascii")
        elif p[0] == "any":                     # any byte but the end of the line
            c = cx.cells("c", p[1], 0, 127)
            for i in range(p[1]):
                cx.assume(c[i] != 10)
            b = b + c
        elif p[0] == "raw":
            c = cx.cells("r", p[1], 0, 255)
            for i in range(p[1]):
                cx.assume(c[i] != 10)
            b = b + c
        elif p[0] == "case":                    # the letters in any case
            for ch in p[1]:
                c = cx.cells("k", 1, 65, 122)
                cx.assume(Or(c[0] == ord(ch.upper()), c[0] == ord(ch.lower())))
                b = b + c
        elif p[0] == "space":
            c = cx.cells("s", p[1], 9, 32)
            for i in range(p[1]):
                cx.assume(Or(c[i] == 32, c[i] == 9, c[i] == 11, c[i] == 12, c[i] == 13))
            b = b + c
    return b


def revision(cx, lines, last):
    """CPU information of the given lines."""
    ls = [build(cx, l) for l in lines]
    data = b""
    for i, l in enumerate(ls):
        data = data + l + (b"\n" if last or i < len(ls) - 1 else b"")
    fs().put(CPU, data)
    r, e = caught(rpi.get_machine_revision)
    want = oracle(ls)
    cx.check(e is None, "reading the revision does not fail")
    if want is None:
        cx.check(r is None, "there is no revision without a revision line")
        cx.reach("none")
    else:
        cx.check(r is not None and not isinstance(r, bytes) and r == want,
                 "the revision is the trimmed, lower-cased value of the first revision line")
        cx.reach("found")
    cx.observe(r)


def unreadable(cx):
    """Files that are missing or cannot be read, at any point."""
    what = cx.pick("what", ["missing", "open", "read"])
    path = cx.pick("file", [CPU, "/proc/device-tree/model"])
    if what != "missing":
        fs().put(path, b"a : b\nRevision : 1\n")
    errs = [fsenv.err(n) for n in (5, 13, 2, 21)]
    e0 = cx.pick("error", errs)

    def fault(op, p, node=None):
        if p == path and ((what == "open" and op.startswith("open")) or (what == "read" and op == "read")):
            raise e0
    fs().hook = fault
    r, e = caught(rpi.get_machine_revision if path == CPU else rpi.get_model_name)
    cx.check(e is None and (r is None if path == CPU else r == ""), "details that cannot be read are none")
    cx.reach(what)


def ifaces(cx, octets, spare):
    """The interfaces the kernel returns, and none other."""
    names = []
    data = b""
    size = 40 if sys.maxsize > 2 ** 32 else 32
    want = []
    for i, os_ in enumerate(octets):
        n = cx.cells("name", 3, 97, 122) if len(octets) < 9 else (b"if" + bytes([97 + i // 26, 97 + i % 26]))[-3:]
        ip = b""
        text = ""
        for j, (lo, hi) in enumerate(os_):
            c = cx.cells("ip", 1, lo, hi) if lo < hi else bytes([lo])
            ip = ip + c
            text = text + ("." if j else "") + str(c[0])
        rec = n + b"\0" * 13 + b"\x02\x00" + cx.cells("port", 2) + ip
        rec = rec + b"\0" * (size - 24)
        data = data + rec
        want.append((n.decode("ascii"), text))
    seen = []

    def ioctl(fd, req, arg):
        cx.check(req == 0x8912, "the interface table is asked for")
        n, ptr = struct.unpack("iL", arg)
        a = cx.st["arrays"][ptr]
        cx.check(n == len(a.items), "the buffer has the size given to the kernel")
        # the kernel fills the front of the buffer with as many records as fit, and tells how much
        fit = min(len(data), n // size * size)
        a.items = data[:fit] + a.items[fit:]
        seen.append(fd)
        return struct.pack("iL", fit, ptr)

    cx.st["ioctl"] = ioctl
    r, e = caught(iptool.get_all_interfaces)
    cx.check(e is None and len(seen) == 1, "the interfaces are listed")
    cx.check(len(r) == len(want), "exactly the interfaces the kernel returned are listed")
    for (n, ip), (n2, ip2) in zip(r, want):
        cx.check(And(n == n2, ip == ip2), "an interface has its name and address, in order")
    cx.check(device_meta.get_ip_address_list() == [w[1] for w in want], "the addresses are those of the interfaces")
    for s in cx.st.get("sockets", []):
        cx.check(s.closed, "the socket is closed")
    cx.reach("ifaces")


def no_ifaces(cx):
    """Failures to list the interfaces."""
    err = cx.pick("error", ERRORS)

    def ioctl(fd, req, arg):
        raise err

    cx.st["ioctl"] = ioctl
    r, e = caught(device_meta.get_ip_address_list)
    cx.check(e is None and r == [], "a failure to list the interfaces gives an empty list")
    for s in cx.st.get("sockets", []):
        cx.check(s.closed, "the socket is closed")
    m, e = caught(device_meta.get_meta)
    cx.check(e is None and m["ip_list"] == [], "the other details are there all the same")
    cx.reach("no ifaces")


def meta(cx, n):
    """The details are gathered once; every caller has its own copy."""
    model = cx.chars("model", 2, 97, 122)
    rev = cx.chars("revision", 3, 97, 122)
    fs().put("/proc/device-tree/model", model.encode("ascii"))
    fs().put(CPU, b"Revision\t: " + rev.encode("ascii") + b"\n")
    asked = []
    fails = [cx.choice("failures", 2)]

    def distro(name):
        asked.append(name)
        if name == "name" and fails[0] > 0:
            fails[0] -= 1
            raise RuntimeError("x")
        return cx.pick("word", ["Debian", ""]) if name == "codename" else name
    cx.st["distro"] = distro

    def ioctl(fd, req, arg):
        raise OSError(22, "x")
    cx.st["ioctl"] = ioctl
    got = []
    first = None
    while fails[0] > 0:
        r, e = caught(device_meta.get_meta)
        cx.check(e is not None, "details that cannot be gathered are not made up")
    for i in range(n):
        before = len(asked)
        m, e = caught(device_meta.get_meta)
        cx.check(e is None, "the details are gathered")
        if i == 0:
            first = dict(m)
            cx.check(And(m["machine_revision"] == rev, m["model_name"] == model, m["agent_version"] == __version__,
                         m["uname"] == "Linux host 5.0 #1 x86_64 "), "the details are the device's")
            cx.check(m["os_version"] in ("name version Debian", "name version"), "the operating system is named")
        else:
            cx.check(len(asked) == before, "the details are gathered once")
        cx.check(sorted(m) == sorted(first), "every caller gets all the details")
        for k in first:
            cx.check(m[k] == first[k], "every caller gets the same details")
        for o in got:
            cx.check(m is not o, "every caller gets its own copy")
        got.append(m)
        how = cx.pick("caller", ["change", "clear", "leave"])
        if how == "change":
            m["machine_revision"] = "changed"
            m["more"] = 1
        elif how == "clear":
            m.clear()
        fs().put(CPU, b"Revision\t: other\n")
    cx.reach("meta")


def cores(cx, n, filler):
    """The CPU information of a machine of many cores (longer than any buffer), with the revision at its end."""
    v = cx.cells("value", 3, 65, 122)
    for c in v:
        cx.assume(And(c != 91, Or(c <= 90, c >= 97)))
    data = b""
    for i in range(n):
        data = data + b"processor\t: %d\nmodel name\t: ARMv7\nFeatures\t: " % i + b"neon " * filler + b"\n\n"
    fs().put(CPU, data + b"Hardware\t: BCM2835\nRevision\t: " + v + b"\nSerial\t: 0\nRevision: no\n")
    r, e = caught(rpi.get_machine_revision)
    cx.check(e is None and r == v.lower().decode("ascii"),
             "the revision is the trimmed, lower-cased value of the first revision line")
    cx.reach("cores")


def many_callers(cx, n):
    """Very many callers over a long life; what the files say changes meanwhile."""
    fs().put("/proc/device-tree/model", b"model")
    rev = cx.chars("revision", 3, 97, 122)
    fs().put(CPU, b"Revision\t: " + rev.encode("ascii") + b"\n")
    first = None
    for i in range(n):
        m, e = caught(device_meta.get_meta)
        cx.check(e is None, "the details are gathered")
        if first is None:
            first = dict(m)
        cx.check(sorted(m) == sorted(first), "every caller gets all the details")
        for k in first:
            cx.check(same_value(m[k], first[k]), "every caller gets the same details")
        if i % 2:
            m.clear()
        else:
            m["machine_revision"] = "x"
        fs().put(CPU, b"Revision\t: %d\n" % i)
        cx.st["now"] = cx.st.get("now", 0) + 40000
    cx.reach("callers")


P_REV = ["any", 0]


def plan(tier):
    t = tier == "thorough"
    v = ["any", 6 if t else 4]
    lines = [
        [[["any", 6 if t else 4]], ["Revision\t: ", v]],
        [[["space", 1], ["case", "revision"], ["space", 2], ":", ["space", 1], v, ["space", 1]]],
        [["processor\t: 0"], [], ["Hardware\t: BCM2835"], ["Revision", ["any", 1], ": ", v], ["Serial : 1"]],
        [["Revision : ", ["any", 1]], ["revision : ", ["any", 1]]],
        [[["any", 1], "evision", ["any", 1], "a02082"], ["revision:x"]],
        [[["any", 2], "Revision:1"], ["CPU revision\t: 4"], ["Revision : ", ["any", 1], ":", ["any", 1]]],
        [["CPU revision\t: ", ["any", 2]], ["my:Revision: 9"]],
        [["Revision"], ["Revisions: 3"], [["any", 2]]],
        [[["raw", 2], ": x"], ["Revision: 0A"]],
        [],
    ]
    o = [[0, 9], [10, 99], [100, 255]]
    oct_ = [[], [[o[2], o[2], o[2], o[2]]], [[o[0], o[1], o[2], o[0]], [o[1], o[0], o[0], o[2]]],
            [[o[0], o[0], o[0], o[0]], [o[2], o[1], o[1], o[2]], [o[1], o[1], o[1], o[1]]]]
    many = [[[10, 10], [i, i], [7, 7], o[0] if i in (0, 63) else [1, 1]] for i in range(64)]
    return {
        "bounds": ("CPU information of up to 5 lines with up to %d arbitrary characters in a place, revision keys in any "
                  "case and with any white space; up to 3 interfaces with any addresses, and 20 and 64 of them; details asked for %d times by "
                  "callers changing what they got" % (6 if t else 4, 4 if t else 3)) +
                  "; CPU information of up to 900 processors; hundreds of callers",
        "outside": "revision values that are not ASCII; longer arbitrary parts; more than 100 interfaces",
        "jobs": [{"fn": "revision", "cases": [{"lines": l, "last": k} for l in lines for k in (True, False)],
                  "weight": 2},
                 {"fn": "unreadable", "reach": ["missing", "open", "read"]},
                 {"fn": "ifaces", "cases": [{"octets": x, "spare": 0} for x in oct_ + [many[:20], many]], "reach": ["ifaces"]},
                 {"fn": "cores", "cases": [{"n": k, "filler": f} for k, f in ((4, 3), (64, 40), (1, 2000), (900, 4))],
                  "reach": ["cores"], "max_steps": 4000000},
                 {"fn": "many_callers", "cases": [{"n": 2000 if t else 300}], "reach": ["callers"], "max_steps": 4000000},
                 {"fn": "no_ifaces", "reach": ["no ifaces"]},
                 {"fn": "meta", "cases": [{"n": 4 if t else 3}], "reach": ["meta"]}]}
