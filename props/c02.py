"""C02: decoding untrusted bytes terminates and rejects truncation."""
from sxenv.lib import And, Not, Or, Implies, caught, same_value
from dataplicity.m2m import bencode


class Trunc(Exception):
    pass


class Bad(Exception):
    pass


class Spec(object):
    """Reference decoder of canonical bencode: Trunc if the input is a proper prefix of a canonical value,
    Bad if it is neither that nor a canonical value."""

    def __init__(self, data, n):
        self.d = data
        self.n = n
        self.i = 0

    def byte(self):
        if self.i >= self.n:
            raise Trunc()
        c = self.d[self.i]
        self.i += 1
        return c

    def digits(self, first, end):
        """a canonical non-negative numeral ended by `end`"""
        if not (first >= 48 and first <= 57):
            raise Bad()
        v = first - 48
        zero = first == 48
        while True:
            c = self.byte()
            if c == end:
                return v
            if zero:
                raise Bad()
            if not (c >= 48 and c <= 57):
                raise Bad()
            v = v * 10 + (c - 48)

    def value(self):
        c = self.byte()
        if c == 105:
            c = self.byte()
            if c == 45:
                c = self.byte()
                if c == 48:
                    raise Bad()
                return -self.digits(c, 101)
            return self.digits(c, 101)
        if c == 108:
            out = []
            while True:
                if self.peek_end():
                    return out
                out.append(self.value())
        if c == 100:
            ks, vs = [], []
            while True:
                if self.peek_end():
                    break
                c = self.byte()
                k = self.string(c)
                if ks and not (ks[-1] < k):
                    raise Bad()
                ks.append(k)
                vs.append(self.value())
            return ("dict", ks, vs)
        return self.string(c)

    def peek_end(self):
        c = self.byte()
        if c == 101:
            return True
        self.i -= 1
        return False

    def string(self, c):
        n = self.digits(c, 58)
        if n > self.n - self.i:
            raise Trunc()
        r = self.d[self.i:self.i + n]
        self.i += n
        return r


def denotes(v, d):
    """does the decoded d equal the specified value v?"""
    if isinstance(v, list):
        return isinstance(d, list) and len(d) == len(v) and And(*[denotes(x, y) for x, y in zip(v, d)])
    if isinstance(v, tuple):
        if not isinstance(d, dict) or len(d) != len(v[1]):
            return False
        out = []
        for k, x in zip(v[1], v[2]):
            if k not in d:
                return False
            out.append(denotes(x, d[k]))
        return And(*out)
    return same_value(d, v)


def arbitrary(cx, n, first=None):
    """Any n bytes at all."""
    data = cx.cells("b", n)
    if first == "struct":
        cx.assume(Or(data[0] == 105, data[0] == 108, data[0] == 100))
    elif first == "digit":
        cx.assume(And(data[0] >= 48, data[0] <= 57))
    elif first == "other":
        c = data[0]
        cx.assume(Not(Or(c == 105, c == 108, c == 100, And(c >= 48, c <= 57))))
    cx.reach("decoding")
    d, err = caught(bencode.decode, data)
    cx.reach("ended")
    s = Spec(data, n)
    try:
        v = s.value()
        if s.i < n:
            raise Bad()
    except Trunc:
        cx.reach("truncated")
        cx.observe("trunc", err is None)
        cx.check(err is not None, "a byte string cut short inside a value is rejected")
    except Bad:
        cx.observe("bad")
        cx.reach("malformed")
    else:
        cx.observe("ok", d)
        cx.check(err is None, "a complete value is accepted")
        cx.check(denotes(v, d), "a complete value decodes to the value it denotes")
        cx.reach("complete")


def wrapped(cx, prefix, suffix, n):
    """Arbitrary bytes inside a fixed frame (structures deeper than `arbitrary` reaches)."""
    data = prefix.encode("ascii") + cx.cells("b", n) + suffix.encode("ascii")
    d, err = caught(bencode.decode, data)
    s = Spec(data, len(prefix) + n + len(suffix))
    try:
        v = s.value()
        if s.i < s.n:
            raise Bad()
    except Trunc:
        cx.observe("trunc", err is None)
        cx.check(err is not None, "a byte string cut short inside a value is rejected")
    except Bad:
        cx.observe("bad")
    else:
        cx.observe("ok", d)
        cx.check(err is None, "a complete value is accepted")
        cx.check(denotes(v, d), "a complete value decodes to the value it denotes")
        cx.reach("complete")


def make(cx, shape):
    if shape == "str":
        return cx.bytes("s", 0, 10 ** 7)
    if shape == "int":
        return cx.int("i", -10 ** 9, 10 ** 9)
    if shape == "list":
        return [cx.int("i", -9, 99), cx.bytes("s", 0, 120), []]
    if shape == "dict":
        return {b"a": cx.bytes("s", 0, 99), b"bc": [cx.int("i", 0, 9)]}
    if shape == "nested":
        return [[{b"x": cx.bytes("s", 0, 9)}], {b"": {}}, cx.int("i", -9, 9)]
    raise AssertionError(shape)


def cut(cx, shape):
    """The encoding of a value, cut anywhere."""
    e = bencode.encode(make(cx, shape))
    n = len(e)
    d, err = caught(bencode.decode, e)
    cx.check(err is None, "a complete value is accepted")
    p = cx.int("cut", 0)
    cx.assume(p < n)
    d, err = caught(bencode.decode, e[:p])
    cx.observe(err is None)
    cx.check(err is not None, "a byte string cut short inside a value is rejected")
    cx.reach("cut")


def huge(cx, n):
    """A size prefix of up to n digits on a short body: rejected, at once."""
    size = cx.int("size", 10, 10 ** n)
    body = cx.bytes("body", 0, 9)
    d, err = caught(bencode.decode, str(size).encode("ascii") + b":" + body)
    cx.observe(err is None)
    cx.check(err is not None, "a declared size beyond the data is rejected")
    cx.reach("huge")


def scale(cx, shape, n):
    """Values nested n deep or n entries long, whole and cut."""
    x = cx.int("x", 10, 99)
    b = cx.cells("b", 12)
    num = str(x).encode("ascii")
    text = str(len(b)).encode("ascii") + b":" + b
    if shape == "list":
        data = b"l" + b"".join([b"i%de" % i for i in range(n)]) + b"i" + num + b"e" + text + b"e"
        want = [i for i in range(n)] + [x, b]
    elif shape == "dict":
        ks = sorted(b"%d" % i for i in range(n))
        data = b"d" + b"".join([b"%d:%si1e" % (len(k), k) for k in ks]) + b"1:x" + text + b"e"
        want = {k: 1 for k in ks}
        want[b"x"] = b
    elif shape == "strings":
        data = b"l" + b"".join([b"2:ab0:" for i in range(n)]) + text + b"e"
        want = []
        for i in range(n):
            want.append(b"ab")
            want.append(b"")
        want.append(b)
    else:
        data, want = text, b
        for i in range(n):
            if (i % 2 if shape == "deep" else shape == "deep list"):
                data, want = b"l" + data + b"i1ee", [want, 1]
            else:
                data, want = b"d1:k" + data + b"e", {b"k": want}
    d, err = caught(bencode.decode, data)
    cx.check(err is None, "a complete value is accepted")
    cx.check(same_value(d, want), "a complete value decodes to the value it denotes")
    for k in (1, 2, 3, n, n + 1):
        d, err = caught(bencode.decode, data[:len(data) - k])
        cx.check(err is not None, "a byte string cut short inside a value is rejected")
    cx.reach("scale")


P_FRAMES = [["l", "e", 4], ["d1:a", "e", 3], ["d", "i1ee", 3], ["li1e", "", 3], ["i", "", 5], ["i-", "e", 3], ["ll", "ee", 2],
            ["12:abcdefghijk", "", 2], ["1", "abcdefghijkl", 3]]


def plan(tier):
    t = tier == "thorough"
    N = 7 if t else 5
    frames = [{"prefix": a, "suffix": b, "n": n + (1 if t else 0)} for a, b, n in P_FRAMES]
    cases = [{"n": n} for n in range(0, N)] + [{"n": N, "first": f} for f in ("struct", "digit", "other")]
    return {
        "bounds": "every byte string of up to %d bytes; %d frames holding up to %d arbitrary bytes; encodings of five "
                  "value shapes with strings of up to 10^7 arbitrary bytes, cut at every position; declared sizes of "
                  "up to %d digits; values nested up to %d deep and of up to %d entries; a decode may take at most 3000 loop iterations (2,000,000 for the long ones)" % (
                      N, len(frames), 6 if t else 5, 30 if t else 12, 150 if t else 100, 12000 if t else 5000),
        "outside": "longer arbitrary strings",
        "jobs": [
            {"fn": "arbitrary", "cases": cases, "hang": True, "max_steps": 3000, "reach": ["ended"], "weight": 9},
            {"fn": "wrapped", "cases": frames, "hang": True, "max_steps": 3000, "weight": 4},
            {"fn": "cut", "cases": [{"shape": s} for s in ("str", "int", "list", "dict", "nested")], "hang": True,
             "max_steps": 3000, "reach": ["cut"]},
            {"fn": "scale", "cases": [{"shape": "deep", "n": 150 if t else 100}, {"shape": "deep list", "n": 150 if t else 100},
                                       {"shape": "deep dict", "n": 150 if t else 100}, {"shape": "list", "n": 12000 if t else 5000},
                                      {"shape": "dict", "n": 1000}, {"shape": "strings", "n": 1000}],
             "reach": ["scale"], "hang": True, "max_steps": 2000000},
            {"fn": "huge", "cases": [{"n": 30 if t else 12}], "hang": True, "max_steps": 3000, "reach": ["huge"]},
        ]}
