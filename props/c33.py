"""C33: machine tags are parsed exactly from the tag script's output."""
import subprocess
from props.common import ERRORS
from sxenv.lib import And, Not, Or, caught, same_value
from sxenv.fs import fs
from dataplicity.tags import get_tag_list, TagError

TAGS = "/home/dataplicity/dataplicity_tags"


def oracle(text):
    out = []
    cur = ""
    for i in range(len(text)):
        c = text[i]
        if c == "," or c.isspace():
            if len(cur) > 0:
                out.append(cur[:25])
            cur = ""
        else:
            cur = cur + c
    if len(cur) > 0:
        out.append(cur[:25])
    return out


def ask(cx, out):
    """get_tag_list with a script that outputs `out`."""
    ran = []

    def output(args):
        ran.append(args if not isinstance(args, (list, tuple)) else args[0])
        return out

    fs().put(TAGS, b"#!")
    cx.st["output"] = output
    r, e = caught(get_tag_list)
    cx.check(e is None, "the output of a script that works is never an error")
    cx.check(len(ran) == 1 and ran[0] == TAGS, "the device's tag script is run, once")
    cx.check(isinstance(r, list), "the tags are a list")
    return r


def parse(cx, shape):
    """The output is built from the pieces of `shape`: text, or n arbitrary bytes (ASCII unless raw)."""
    b = b""
    for s in shape:
        if isinstance(s, str):
            b = b + s.encode("ascii")
        elif isinstance(s, int):
            b = b + cx.cells("b", s, 0, 127)
        elif s[0] == "sep":
            for _ in range(s[1]):
                c = cx.cells("s", 1, 9, 44)
                k = c[0]
                cx.assume(Or(k <= 13, And(k >= 28, k <= 32), k == 44))
                b = b + c
        elif s[0] == "letters":
            b = b + cx.cells("l", s[1], 97, 122)
    r = ask(cx, b)
    want = oracle(b.decode("ascii"))
    cx.check(same_value(r, want), "the tags are the pieces between commas and white space, cut to 25 characters")
    for x in r:
        cx.check(len(x) > 0, "no tag is empty")
    cx.observe(len(r), r)
    cx.reach("parsed")


def long_list(cx, n):
    """Many tags, and long outputs."""
    sep = cx.pick("separator", [",", " ", "\n", ", "])
    names = [("tag%d" % i) for i in range(n)]
    k = cx.choice("long", 3) * (n // 3)
    names[k] = "x" * 200 + str(k)
    r = ask(cx, sep.join(names).encode("ascii"))
    cx.check(r == [x[:25] for x in names], "every piece of the output is a tag, in order")
    cx.reach("long")


def spaces(cx):
    """White space outside ASCII."""
    c = cx.pick("space", ["\x85", "\xa0", "\u1680", "\u2003", "\u2028", "\u202f", "\u3000"])
    other = cx.pick("other", ["\u200b", "\xe9", "\ufeff", "\u20ac"])
    r = ask(cx, ("a%sb%sc,%s,d" % (c, other, c)).encode("utf-8"))
    cx.check(r == ["a", "b%sc" % other, "d"], "tags end at any white space, and at nothing else")
    cx.reach("spaces")


def leading(cx):
    """Characters outside ASCII at the ends of the output."""
    c = cx.pick("first", ["\ufeff", "\u200b", "\xe9", "\ufffd", "\U0001f600"])
    x = cx.chars("x", 1, 97, 122)
    r = ask(cx, c.encode("utf-8") + x.encode("ascii") + b"," + x.encode("ascii") + c.encode("utf-8"))
    cx.check(len(r) == 2 and r[0] == c + x and r[1] == x + c, "tags end at any white space, and at nothing else")
    cx.reach("leading")


def raw(cx, before, n, after):
    """Any n bytes, undecodable ones dropped."""
    b = before.encode("ascii") + cx.cells("b", n, 0, 255) + after.encode("ascii")
    r = ask(cx, b)
    want = oracle(b.decode("utf-8", "ignore"))
    cx.check(same_value(r, want), "undecodable bytes are dropped")
    cx.observe(len(r))
    cx.reach("raw")


def failing(cx):
    """A missing, unrunnable or failing script."""
    how = cx.pick("script", ["missing", "os", "fails", "other"])
    if how != "missing":
        fs().put(TAGS, b"#!")
    err = {"os": OSError(cx.pick("errno", [2, 8, 13, 12, 26]), "x"),
           "fails": subprocess.CalledProcessError(cx.int("status", 1, 255), "x"),
           "other": cx.pick("error", [ValueError("x"), RuntimeError("x"), subprocess.SubprocessError("x"),
                                      MemoryError()]), "missing": None}[how]

    def output(args):
        raise err

    cx.st["output"] = output
    r, e = caught(get_tag_list)
    if how in ("missing", "os"):
        cx.check(e is None and r == [], "a missing or unrunnable script gives no tags")
    else:
        cx.check(isinstance(e, TagError), "a script that fails gives an error")
    cx.reach(how)


def home(cx):
    """The script is the one in the home directory."""
    h = cx.pick("home", [None, "/root", "/home/other/", "/", "relative"])
    want = {None: "/home/dataplicity/dataplicity_tags", "/root": "/root/dataplicity_tags",
            "/home/other/": "/home/other/dataplicity_tags", "/": "/dataplicity_tags",
            "relative": "relative/dataplicity_tags"}[h]
    env = {"PATH": "/bin"}
    if h is not None:
        env["HOME"] = h
    cx.st["environ"] = env
    if h != "relative":
        fs().put(want, b"#!")
    ran = []
    cx.st["output"] = lambda args: (ran.append(args if not isinstance(args, (list, tuple)) else args[0]), b"a,b")[1]
    r, e = caught(get_tag_list)
    if h == "relative":
        cx.check(e is None and r == [], "no tags without a script")
    else:
        cx.check(e is None and r == ["a", "b"] and ran == [want], "the script in the home directory is run")
    cx.reach("home")


def plan(tier):
    t = tier == "thorough"
    n = 5 if t else 4
    shapes = [[k] for k in range(0, n + 1)] + [
        [["letters", 24], 2, ["letters", 2]],
        [["letters", 26], 1, "b"], [["letters", 25], ["sep", 2], ["letters", 27], ["sep", 1]],
        [["sep", 2], "a", ["sep", 3], ["letters", 1], ["sep", 1], "z"],
        ["tag-1", 1, "tag 2", 1, "\n\n", 1]]
    return {
        "bounds": "outputs of up to %d arbitrary ASCII characters and of up to 3 arbitrary bytes; up to 3 tags of up to "
                  "28 letters with any separators; script missing, unrunnable (5 error numbers) or failing in any of "
                  "several ways with any status; lists of up to 150 tags; seven kinds of white space outside ASCII" % n,
        "outside": "longer arbitrary outputs; non-ASCII white space beyond 3 bytes",
        "jobs": [{"fn": "parse", "cases": [{"shape": s} for s in shapes], "reach": ["parsed"], "weight": 2},
                 {"fn": "raw", "cases": [{"before": "", "n": 2, "after": ""}, {"before": "", "n": 3, "after": "a"}, {"before": "a", "n": 3 if t else 2,
                                                                               "after": ",b"}], "reach": ["raw"]},
                 {"fn": "long_list", "cases": [{"n": 150}, {"n": 30}], "reach": ["long"]},
                 {"fn": "spaces", "reach": ["spaces"]},
                 {"fn": "leading", "reach": ["leading"]},
                 {"fn": "failing", "reach": ["missing", "os", "fails", "other"]},
                 {"fn": "home", "reach": ["home"]}]}
