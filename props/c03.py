"""C03: every packet kind survives the wire and ill-formed packets are refused."""
from sxenv.lib import And, Not, Or, Implies, caught, same_value
from dataplicity.m2m import bencode
from dataplicity.m2m.packets import M2MPacket
from dataplicity.m2m.packetbase import PacketError, PacketFormatError

# the protocol: number -> fields in order (i: integer, b: bytes, d: dictionary, l: list)
P_PROTOCOL = {
    0: [], 1: [], 2: ["uuid:b"], 3: [], 4: ["text:b"], 5: ["channel:i", "data:b"], 6: ["channel:i", "data:b"],
    7: ["data:b"], 8: ["data:b"], 9: ["uuid:b"], 11: ["port:i"], 13: [], 14: ["channel:i"],
    15: ["username:b", "password:b"], 16: ["sender:b", "data:d"], 17: ["user:b"], 18: ["message:b"], 19: ["port:i"],
    20: [], 21: ["channel:i", "data:b"], 22: ["channel:i", "data:b"], 24: ["upload_id:b", "path:b"],
    25: ["upload_id:b", "size:i", "fail:i", "fail_reason:b"], 26: ["upload_id:b"],
    27: ["upload_id:b", "offset:i", "size:i"],
    28: ["upload_id:b", "offset:i", "size:i", "data:b", "fail:i", "fail_reason:b"], 29: [], 30: ["error:b"],
    31: ["id:b", "path:b", "device_path:b", "offset:i", "data:b", "final:i"],
    32: ["id:b", "position:i", "chunk_size:i", "device_path:b", "fail:i", "fail_reason:b"],
    100: ["command_id:i", "result:d"],
    101: ["command_id:i", "node1:b", "port1:i", "node2:b", "port2:i", "requester:b", "forwarded:i"],
    102: ["command_id:i", "node:b", "data:d"], 103: ["command_id:i", "node:b", "text:b"],
    104: ["command_id:i", "text:b"], 106: ["command_id:i", "node:b", "name:b"], 107: ["command_id:i", "nodes:l"],
    108: ["command_id:i", "nodes:l"], 109: ["command_id:i", "expire:i", "value:b"],
    110: ["command_id:i", "requester:b", "node:b", "key:b", "value:b"],
    111: ["command_id:i", "requester:b", "node:b"],
    200: ["command_id:i", "requester:b", "node1:b", "port1:i", "node2:b", "port2:i"],
    201: ["recipient:b", "packet:b"], 202: ["node:b"], 203: ["node:b", "name:b"], 204: ["node:b", "port:i"],
}


def value(cx, ty, wide):
    if ty == "i":
        return cx.int("i", -10 ** 9, 10 ** 10) if wide else cx.int("i", 0, 9)
    if ty == "b":
        return cx.bytes("b", 0, 2 * 10 ** 6) if wide else cx.cells("b", 2)
    if ty == "d":
        if wide:
            return {cx.cells("k", 2): cx.bytes("v", 0, 99), b"": cx.int("n", -9, 99)}
        return {b"key": cx.cells("v", 1)}
    if wide:
        return [cx.bytes("x", 0, 99), cx.int("y", -9, 99), []]
    return [cx.cells("x", 1)]


def fields(spec):
    return [f.split(":") for f in spec]


def kind(cx, number):
    """A packet built with correctly typed fields survives the wire."""
    spec = fields(P_PROTOCOL[number])
    wide = cx.choice("wide", len(spec)) if spec else 0
    vals = [value(cx, ty, i == wide) for i, (name, ty) in enumerate(spec)]
    given = list(vals)
    if spec and spec[wide][1] == "b" and cx.fault("text"):
        # text given for a binary field travels as its UTF-8 bytes
        t = cx.chars("t", 2, 0x7d, 0x82)
        given[wide] = t
        vals[wide] = t.encode("utf-8")
    if cx.fault("named"):
        kw = {}
        for (name, ty), v in zip(spec, given):
            kw[name] = v
        p = M2MPacket.create(number, **kw)
    else:
        p = M2MPacket.create(number, *given)
    for (name, ty), v in zip(spec, vals):
        cx.check(same_value(getattr(p, name), v), "the packet holds the fields it was built with")
    b = p.as_bytes
    cx.observe(b)
    cx.check(b == bencode.encode([number] + vals), "sent as the kind's number and its fields in protocol order")
    q = M2MPacket.from_bytes(b)
    cx.check(type(q) is type(p), "read as the same kind of packet")
    cx.check(int(q.type) == number and int(p.type) == number, "the kind has the number of the protocol")
    for (name, ty), v in zip(spec, vals):
        cx.check(same_value(getattr(q, name), v), "read with equal fields")
    cx.check(q.as_bytes == b, "sent again identically")
    cx.reach("kind")


def big(cx, number):
    """Fields of any type that are very big."""
    spec = fields(P_PROTOCOL[number])
    vals = [value(cx, ty, False) for name, ty in spec]
    bad = cx.choice("big", len(spec))
    ty = spec[bad][1]
    x = cx.cells("x", 2)
    many = [b"item %d" % k for k in range(1100)]
    vals[bad] = {"i": cx.int("sign", -1, 1) * 10 ** 30 + cx.int("i", 0, 9), "b": x + b"b" * 70000 + x,
                 "l": many + [x, [x]], "d": dict([(k, 5) for k in many] + [(b"x", x), (x, many)])}[ty]
    p = M2MPacket.create(number, *vals)
    b = p.as_bytes
    cx.check(b == bencode.encode([number] + vals), "sent as the kind's number and its fields in protocol order")
    q = M2MPacket.from_bytes(b)
    for (name, ty), v in zip(spec, vals):
        cx.check(same_value(getattr(p, name), v), "the packet holds the fields it was built with")
        cx.check(same_value(getattr(q, name), v), "read with equal fields")
    cx.check(q.as_bytes == b, "sent again identically")
    cx.reach("big")


P_WRONG = {"i": ["b", "l", "d"], "b": ["i", "l", "d"], "d": ["i", "b", "l"], "l": ["i", "b", "d"]}


def expect_refusal(cx, fn, what):
    r, e = caught(fn)
    cx.check(e is not None, what)
    cx.check(isinstance(e, PacketFormatError), what + " with a packet-format error")


def illtyped(cx, number):
    """One field of the wrong type, or missing: refused when built and when read."""
    spec = fields(P_PROTOCOL[number])
    bad = cx.choice("field", len(spec))
    vals = [value(cx, ty, False) for name, ty in spec]
    if cx.fault("missing"):
        # on the wire and in positional form only a tail can be missing; by name any field
        short = vals[:bad]
        expect_refusal(cx, lambda: M2MPacket.create(number, *short), "a missing field is refused when built")
        kw = {}
        for i, ((name, ty), v) in enumerate(zip(spec, vals)):
            if i != bad:
                kw[name] = v
        expect_refusal(cx, lambda: M2MPacket.create(number, **kw), "a missing field is refused when built")
        data = bencode.encode([number] + short)
        expect_refusal(cx, lambda: M2MPacket.from_bytes(data), "a missing field is refused when read")
    else:
        ty = cx.pick("wrong", P_WRONG[spec[bad][1]])
        how = cx.pick("wrong value", ["any", "const", "empty"])
        v = value(cx, ty, False)
        if how == "const":
            v = {"i": 5, "b": b"xx", "l": [b"xx"], "d": {b"a": 1}}[ty]
        elif how == "empty":
            v = {"i": 0, "b": b"", "l": [], "d": {}}[ty]
        vals[bad] = v
        expect_refusal(cx, lambda: M2MPacket.create(number, *vals), "a field of the wrong type is refused when built")
        kw = {}
        for (name, t), x in zip(spec, vals):
            kw[name] = x
        expect_refusal(cx, lambda: M2MPacket.create(number, **kw), "a field of the wrong type is refused when built")
        data = bencode.encode([number] + vals)
        expect_refusal(cx, lambda: M2MPacket.from_bytes(data), "a field of the wrong type is refused when read")
        if spec[bad][1] == "i":
            vals[bad] = cx.chars("t", cx.choice("text", 2), 48, 57)
            expect_refusal(cx, lambda: M2MPacket.create(number, *vals), "text for an integer is refused")
        vals[bad] = None
        expect_refusal(cx, lambda: M2MPacket.create(number, *vals), "an absent value is refused")
    cx.reach("illtyped")


def badbytes(cx, prefix, n, suffix):
    """Arbitrary bytes: a packet of a known kind, or a packet error."""
    data = prefix.encode("ascii") + cx.cells("b", n) + suffix.encode("ascii")
    p, e = caught(M2MPacket.from_bytes, data)
    cx.observe(e is None)
    if e is not None:
        cx.check(isinstance(e, PacketError), "bytes that are not a packet are refused with a packet error")
        cx.reach("refused")
    else:
        d = bencode.decode(data)
        cx.check(isinstance(d, list) and len(d) > 0, "only a list is read as a packet")
        ok = False
        for k in P_PROTOCOL:
            ok = Or(ok, d[0] == k)
        cx.check(ok, "only a known number is read as a packet")
        cx.reach("accepted")


def unknown(cx):
    """A packet list with a number outside the protocol."""
    n = cx.int("n", -200, 1200)
    for k in P_PROTOCOL:
        cx.assume(n != k)
    tail = cx.pick("tail", [[], [b"x"], [1, b"x"]])
    p, e = caught(M2MPacket.from_bytes, bencode.encode([n] + tail))
    cx.check(e is not None and isinstance(e, PacketError), "an unknown number is refused with a packet error")
    first = cx.pick("first", [[], [b"5"], [[5]], [{b"a": 1}], b"5", 5, {b"a": 1}, [b"null"]])
    p, e = caught(M2MPacket.from_bytes, bencode.encode(first))
    cx.check(e is not None and isinstance(e, PacketError), "what is not a packet list is refused with a packet error")
    cx.reach("unknown")


def plan(tier):
    t = tier == "thorough"
    k = 1 if t else 0
    fr = [["", 3 + k, ""], ["l", 2 + k, "e"], ["li", 2 + k, "ee"], ["li5ei1e", 2 + k, "e"], ["li9e2:", 2, "e"], ["", 1, "e"],
          ["li11e", 3, "e"], ["i", 2, ""], ["d", 3, "i1ee"], ["di1e", 1, "ee"], ["ld", 2, "i1eee"]]
    return {
        "bounds": "all %d packet kinds; one field at a time over integers of up to 10 digits and byte strings of up "
                  "to 2*10^6 arbitrary bytes (the other fields: one digit, two arbitrary bytes); seven kinds with one field of 70,000 bytes, 1100 elements or 31 digits; every single missing or "
                  "ill-typed field with every wrong wire type; every byte string of up to %d bytes and %d frames of "
                  "arbitrary bytes" % (len(P_PROTOCOL), 3 + k, len(fr)),
        "outside": "several ill-typed fields at once, longer arbitrary byte strings",
        "jobs": [
            {"fn": "kind", "cases": [{"number": n} for n in sorted(P_PROTOCOL)], "reach": ["kind"], "weight": 3},
            {"fn": "big", "cases": [{"number": n} for n in (5, 11, 16, 31, 100, 107, 200)], "reach": ["big"],
             "max_steps": 2000000},
            {"fn": "illtyped", "cases": [{"number": n} for n in sorted(P_PROTOCOL) if P_PROTOCOL[n]],
             "reach": ["illtyped"], "weight": 2},
            {"fn": "badbytes", "cases": [{"prefix": a, "n": n, "suffix": b} for a, n, b in fr], "weight": 2},
            {"fn": "unknown", "reach": ["unknown"]},
        ]}
