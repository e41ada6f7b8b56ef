"""C36: passwords never appear in packet descriptions."""
from sx import rt
from props.common import *
from dataplicity.m2m.packets import M2MPacket, PacketType
from dataplicity.m2m import packets


def described(cls, kw):
    """The descriptions of a packet: of the object, and of one made from its bytes."""
    p = cls(**kw)
    out = [repr(p), str(p), "%r" % (p,), "{!r}".format(p), "%s" % p, "{}".format(p)]
    q = cls.from_body([kw[a] for a, _ in cls.attributes])
    return out + [repr(q)]


def secrets():
    """The packet classes with a password."""
    return [c for _, c in sorted(M2MPacket.registry.items()) if "password" in [a for a, _ in c.attributes]]


def hidden(cx, n, m, user):
    """Two packets that differ only in the password have the same description (of any passwords of n, m bytes)."""
    for cls in secrets():
        kw = {}
        for a, t in cls.attributes:
            if a != "password":
                kw[a] = cx.cells(a, user)
        one = dict(kw)
        two = dict(kw)
        one["password"] = cx.cells("password", n)
        two["password"] = cx.cells("password", m)
        a, b = described(cls, one), described(cls, two)
        for x, y in zip(a, b):
            cx.check(x == y, "the description does not depend on the password")
        cx.reach("hidden")


def long_(cx, n):
    """Very long passwords, and other fields."""
    for cls in secrets():
        kw = {}
        for a, t in cls.attributes:
            if a != "password":
                kw[a] = cx.cells(a, 4)
        one, two = dict(kw), dict(kw)
        one["password"] = cx.cells("password", 2) + b"a" * n + cx.cells("password", 2)
        two["password"] = cx.cells("password", 2) + b"a" * n + cx.cells("password", 2)
        for x, y in zip(described(cls, one), described(cls, two)):
            cx.check(x == y, "the description does not depend on the password")
    d = cx.cells("data", 32) + b"y" * n
    r = repr(M2MPacket.registry[5](channel=3, data=d + cx.cells("more", 2)))
    cx.check(repr(M2MPacket.registry[5](channel=3, data=d + cx.cells("other", 2))) == r,
             "the description does not depend on the rest of a long field")
    cx.check(repr(d[:32]) in r and str(n + 2) in r,
             "a long field is described by its first 32 bytes and the count of the rest")
    cx.reach("long")


def sent(cx, n):
    """Nothing the agent logs when it sends or fails to build a packet with a password depends on it."""
    logs = []
    cx.st["log"] = lambda level, msg, args: logs[-1].append(text(msg, args))
    out = []
    bad = cx.pick("other field", [b"user", 7, None, [b"x"]])
    kind = cx.pick("how", ["send", "build", "missing", "text", "odd password", "received", "received odd"])
    wrap = cx.pick("wrapped", [0, 1, 2]) if "odd" in kind else 0
    for k in range(2):
        pw = cx.cells("password", n)
        if kind == "text":
            pw = cx.chars("password", n, 33, 126)
        elif "odd" in kind:
            pw = [[pw], {b"x": pw}, cx.int("password", 10 ** 8, 9 * 10 ** 8)][wrap]
        logs.append([])
        client = new_client(cx)
        if kind.startswith("received"):
            drive(cx, client, iter([binary(PacketType.request_login, b"user", pw)]))
            _, e = caught(M2MPacket.from_bytes, packet(PacketType.request_login, b"user", pw))
        elif kind in ("send", "text", "odd password"):
            _, e = caught(client.send, PacketType.request_login, username=b"user", password=pw)
        elif kind == "build":
            _, e = caught(client.send, PacketType.request_login, username=bad, password=pw)
        else:
            _, e = caught(client.send, PacketType.request_login, password=pw)
        logs[-1].append(str(e) if e is not None else "")
        del cx.st["log"]
        cx.st["log"] = lambda level, msg, args: logs[-1].append(text(msg, args))
    cx.check(len(logs[0]) == len(logs[1]), "what is logged does not depend on the password")
    for a, b in zip(logs[0], logs[1]):
        cx.check(a == b, "what is logged does not depend on the password")
    cx.reach(kind)


def text(msg, args):
    return msg % tuple(args) if args else msg


def long_fields(cx, kind, field, n):
    """Binary fields of n bytes."""
    cls = M2MPacket.registry[kind]
    kw = {}
    for a, t in cls.attributes:
        kw[a] = 3 if a != field else None
    d = cx.cells("data", n)
    kw[field] = d
    r = repr(cls(**kw))
    if n > 32:
        e = dict(kw)
        e[field] = d[:32] + cx.cells("other", n - 32)
        cx.check(repr(cls(**e)) == r, "the description does not depend on the rest of a long field")
        cx.check(repr(d[:32]) in r and str(n - 32) in r,
                 "a long field is described by its first 32 bytes and the count of the rest")
        cx.reach("long")
    else:
        cx.check(repr(d) in r, "a short field is described completely")
        cx.reach("short")


def plan(tier):
    t = tier == "thorough"
    sizes = [(0, 3), (3, 3), (8, 8), (8, 12), (40, 40), (1, 40)] + ([(64, 64), (33, 64)] if t else [])
    return {
        "bounds": "all pairs of passwords of given lengths up to %d bytes, user names of up to 40 bytes; all descriptions "
                  "(repr, str, format, of decoded packets) and all log records and errors of sending, receiving or failing to build the "
                  "packet, also with a password that is no byte string; binary fields of any content and of ten lengths up to 200; passwords and fields of 1000 and 70,000 bytes" % (64 if t else 40),
        "outside": "longer passwords",
        "jobs": [{"fn": "hidden", "cases": [{"n": a, "m": b, "user": u} for a, b in sizes for u in (4, 40)],
                  "reach": ["hidden"]},
                 {"fn": "long_", "cases": [{"n": k} for k in (1000, 70000)], "reach": ["long"], "max_steps": 2000000},
                 {"fn": "sent", "cases": [{"n": 4}, {"n": 40}], "reach": ["send", "build", "missing", "text", "odd password", "received", "received odd"]},
                 {"fn": "long_fields", "cases": [{"kind": 5, "field": "data", "n": n}
                                                 for n in (0, 1, 31, 32, 33, 34, 63, 64, 65, 200)]}]}
