"""C01: wire encoding round-trips and is canonical."""
from sxenv.lib import And, Not, Or, Implies, caught, same_value
from dataplicity.m2m import bencode


def num(v):
    return str(v).encode("ascii")


def expect(v):
    """The bencode form of v, from the definition."""
    if isinstance(v, bytes):
        return num(len(v)) + b":" + v
    if isinstance(v, str):
        b = v.encode("utf-8")
        return num(len(b)) + b":" + b
    if isinstance(v, int):
        return b"i" + num(v) + b"e"
    if isinstance(v, (list, tuple)):
        r = b"l"
        for x in v:
            r = r + expect(x)
        return r + b"e"
    r = b"d"
    ks = []
    for k in v:                       # insertion sort by the definition of byte order
        i = 0
        while i < len(ks) and ks[i] < k:
            i += 1
        ks.insert(i, k)
    for k in ks:
        r = r + expect(k) + expect(v[k])
    return r + b"e"


def plain(v):
    """What decoding gives for v."""
    if isinstance(v, str):
        return v.encode("utf-8")
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        d = {}
        for k in v:
            d[k] = plain(v[k])
        return d
    return v


def check_value(cx, v):
    e = bencode.encode(v)
    cx.observe(e)
    cx.check(isinstance(e, bytes), "encode returns bytes")
    cx.check(e == expect(v), "encode gives exactly the bencode form")
    d = bencode.decode(e)
    cx.check(same_value(d, plain(v)), "decoding gives back an equal value")
    cx.reach("roundtrip")


def leaf_value(cx, kind, n):
    if kind == "int":
        v = cx.int("v", -10 ** n, 10 ** n)
    elif kind == "bytes":
        v = cx.bytes("v", 0, 10 ** n)
    elif kind == "text":
        v = cx.chars("v", n, 0, 0x10FFFF)
        for i in range(n):
            c = ord(v[i])
            cx.assume(Or(c < 0xD800, c > 0xDFFF))
    else:
        v = cx.text("v", 0, 10 ** n)
    return v


def leaf(cx, kind, n):
    """One value of the largest ranges."""
    check_value(cx, leaf_value(cx, kind, n))


def gen(cx, depth, width, budget, wide, root=False):
    kinds = ["list", "tuple", "dict"] if root else ["int", "bytes", "text"]
    if depth > 0 and not root:
        kinds = kinds + ["list", "dict", "tuple"]
    k = cx.pick("kind", kinds)
    if k == "int":
        return cx.int("i", -9, 10) if wide else cx.int("i", 0, 9)
    if k == "bytes":
        return cx.bytes("b", 0, 9)
    if k == "text":
        return cx.chars("t", 1, 0x70, 0x90) if wide else cx.chars("t", 1, 0x80, 0x90)
    n = cx.choice("n", min(width, budget[0]) + 1)
    budget[0] -= n
    if k == "dict":
        d = {}
        for j in range(n):
            d[b"k%d" % (n - j)] = gen(cx, depth - 1, width, budget, wide)
        return d
    xs = [gen(cx, depth - 1, width, budget, wide) for _ in range(n)]
    return xs if k == "list" else tuple(xs)


def tree(cx, depth, width, nodes, wide):
    """All nestings within the bounds."""
    check_value(cx, gen(cx, depth, width, [nodes], wide, True))


def canonical(cx, lens, nest):
    """Dictionaries with symbolic keys: any insertion order, nested or not."""
    keys = [cx.cells("k%d" % i, n) for i, n in enumerate(lens)]
    for i in range(len(keys)):
        for j in range(i):
            cx.assume(Not(keys[i] == keys[j]))
    order = list(range(len(keys)))
    other = []
    while order:
        other.append(order.pop(cx.choice("order", len(order))))
    a, b = {}, {}
    for i in range(len(keys)):
        a[keys[i]] = i
    for i in other:
        b[keys[i]] = i
    if nest == "list":
        a, b = [a], [b]
    elif nest == "dict":
        a, b = {b"x": a}, {b"x": b}
    elif nest == "tuple":
        a, b = (1, a), (1, b)
    ea = bencode.encode(a)
    eb = bencode.encode(b)
    cx.observe(ea)
    cx.check(ea == eb, "equal dictionaries encode identically whatever their insertion order")
    cx.check(ea == expect(a), "dictionary keys are written in ascending byte order")
    cx.check(same_value(bencode.decode(ea), plain(a)), "decoding gives back an equal dictionary")
    cx.reach("canonical")


def refused(cx, bad, wrap):
    """Values outside the wire types yield an error and no bytes, wherever they are nested."""
    x = cx.int("x", 0, 9)
    v = {"float": 1.5, "none": None, "object": object(), "set": set([1]), "textkey": {"k": 1},
         "mixedkeys": {b"a": 1, "b": x}, "textkey-symbolic": {cx.chars("tk", 2, 97, 99): 1},
         "emptytextkey": {"": x}, "bool": True, "intkey": {7: x}, "complex": 1j}[bad]
    v = {"bare": v, "list": [x, v], "tuple": (v,), "dict": {b"a": x, b"b": v}, "deep": [{b"k": [(v, 1)]}],
         "first": [v, x]}[wrap]
    r, err = caught(bencode.encode, v)
    cx.observe(err)
    if bad == "bool" and err is None:
        # a bool is an int in Python: refusing it and encoding it as that integer are both right
        cx.check(bencode.decode(r) == plain(v), "a bool is refused or encoded as an integer")
    else:
        cx.check(err is not None, "a value outside the wire types is refused")
    cx.reach("refused")


def scale(cx, shape, n):
    """Nestings n deep, lists and dictionaries of n entries."""
    x = cx.int("x", 10, 99)
    b = cx.cells("b", 12)
    if shape == "deep":
        v = [x, b]
        for i in range(n):
            v = [[v, x], {b"k": v, b"a": 1}, (b"t", v)][i % 3]
    elif shape == "deep list":
        v = [x, b]
        for i in range(n):
            v = [v]
    elif shape == "deep dict":
        v = {b"x": x, b"b": b}
        for i in range(n):
            v = {b"k": v}
    elif shape == "list":
        v = [i * i for i in range(n // 2)] + [x, b] + [b"%d" % i for i in range(n // 2)]
    elif shape == "dict":
        v = {}
        for i in range(n):
            v[b"%d" % (n - i)] = x if i == n // 2 else i
    elif shape == "text":
        v = ["e\u00e9" * n, x, "\u20ac" * n, {b"k": "\U0001f600" * n}, "z" * n + "\u00e9"]
    else:
        v = [[i, b"s"] for i in range(n)] + [x]
    check_value(cx, v)
    cx.reach("scale")


def equal_float(cx, kind):
    """Values outside the wire types that equal integers encoded before are refused all the same."""
    from decimal import Decimal
    from fractions import Fraction
    bencode.encode(cx.int("x", 0, 99))
    for i in (0, 1, 2, 5, 10, -1, 63, 100, 255, 1000):
        bencode.encode(i)
        v = {"float": float, "complex": complex, "decimal": Decimal, "fraction": Fraction}[kind](i)
        for w in (v, [v], {b"k": v}, (i, v)):
            r, err = caught(bencode.encode, w)
            cx.check(err is not None, "a value outside the wire types is refused")
    for t in (b"", b"a", b"key"):
        bencode.encode(t)
        for w in (bytearray(t), memoryview(t), [bytearray(t)]):
            if kind == "float":
                r, err = caught(bencode.encode, w)
                cx.check(err is not None or bencode.decode(r) in (t, [t]), "other bytes are refused or encoded as such")
    cx.reach("equal")


P_TREES = [{"depth": 2, "width": 2, "nodes": 3, "wide": False}, {"depth": 1, "width": 2, "nodes": 2, "wide": True}]
P_TREES2 = [{"depth": 3, "width": 3, "nodes": 4, "wide": False}, {"depth": 2, "width": 2, "nodes": 3, "wide": True},
            {"depth": 2, "width": 3, "nodes": 5, "wide": False}]


def plan(tier):
    t = tier == "thorough"
    lens = [[1, 1], [2, 1], [0, 1], [2, 2], [1, 1, 1], [0, 1, 2], [3, 3]]
    if t:
        lens += [[2, 2, 2], [1, 2, 3], [1, 1, 1, 1], [4, 4]]
    wraps = ["bare", "list", "tuple", "dict", "deep", "first"]
    bads = ["float", "none", "object", "set", "textkey", "mixedkeys", "textkey-symbolic", "emptytextkey", "bool",
            "intkey", "complex"]
    return {
        "bounds": "integers of up to %d digits of either sign; byte strings and ASCII text up to 10^%d bytes with "
                  "arbitrary content; text of up to %d arbitrary code points; nestings up to depth %d with %d nodes; "
                  "dictionaries of up to %d symbolic keys of up to %d bytes in every insertion order; nestings "
                  "%d deep, lists of %d and dictionaries of %d entries, five texts of up to 70000 code points of one to four bytes" % (
                      36 if t else 20, 7 if t else 5, 4 if t else 3, 3 if t else 2, 5 if t else 3, 4 if t else 3,
                      4 if t else 3, 150 if t else 100, 12000 if t else 5000, 4000 if t else 2000),
        "outside": "longer strings and numbers, wider and deeper nestings",
        "jobs": [
            {"fn": "leaf", "cases": [{"kind": "int", "n": 36 if t else 20}, {"kind": "bytes", "n": 7 if t else 5},
                                     {"kind": "ascii", "n": 7 if t else 5}] +
             [{"kind": "text", "n": n} for n in range(0, 5 if t else 4)], "reach": ["roundtrip"]},
            {"fn": "tree", "cases": P_TREES + (P_TREES2 if t else []),
             "reach": ["roundtrip"], "weight": 5},
            {"fn": "canonical", "cases": [{"lens": l, "nest": n} for l in lens for n in ("none", "list", "dict", "tuple")
                                          if n == "none" or l in ([1, 1], [2, 1])], "reach": ["canonical"], "weight": 3},
            {"fn": "scale", "cases": [{"shape": "deep", "n": 150 if t else 100}, {"shape": "deep list", "n": 150 if t else 100},
                                       {"shape": "deep dict", "n": 150 if t else 100}, {"shape": "list", "n": 12000 if t else 5000},
                                      {"shape": "dict", "n": 4000 if t else 2000}, {"shape": "pairs", "n": 2000 if t else 1000}] +
             [{"shape": "text", "n": n} for n in (60, 130, 35000, 70000)],
             "reach": ["scale"], "max_steps": 2000000},
            {"fn": "equal_float", "cases": [{"kind": k} for k in ("float", "complex", "decimal", "fraction")],
             "reach": ["equal"]},
            {"fn": "refused", "cases": [{"bad": b, "wrap": w} for b in bads for w in wraps], "reach": ["refused"]},
        ]}
