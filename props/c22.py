"""C22: directory scans list exactly the visible tree and always finish."""
import errno
from props.rdir import *
from sxenv.lib import same_value, And, Or, Not
from dataplicity.scan_directory import scan_directory


class Tree(object):
    """A directory tree built under ROOT, and what a scan of it has to list."""

    def __init__(self, cx):
        self.cx = cx
        self.fs = fsenv.fs()
        self.root = self.fs.mkdirs(ROOT)
        self.nodes = [self.root]

    def add(self, parent, name, kind, size=None):
        n = self.fs.attach(parent, name, fsenv.Node(self.fs, kind))
        n.size = size
        self.nodes.append(n)
        return n

    def rel(self, node):
        parts = []
        while node is not self.root:
            parts.insert(0, node.name)
            node = node.parent
        return "/".join(parts)

    def level(self, node):
        k = 1
        while node is not self.root:
            k += 1
            node = node.parent
        return k

    def hidden(self, node):
        while node is not self.root:
            if node.name.startswith("."):
                return True
            node = node.parent
        return False

    def expected(self, depth, sizes):
        """{relative path: (directory names, {file name: size})}"""
        out = {}
        for n in self.nodes:
            if n.kind != "dir" or self.hidden(n) or (depth is not None and self.level(n) > depth):
                continue
            dirs, files = [], {}
            for name in n.entries:
                c = n.entries[name]
                if self.hidden(c):
                    continue
                if c.kind == "dir":
                    if depth is None or self.level(c) <= depth:
                        dirs.append(name)
                elif c.kind == "file":
                    files[name] = c.size if sizes else -1
            out[self.rel(n)] = (dirs, files)
        return out


def compare(cx, t, res, depth, sizes, maybe=()):
    """maybe: nodes that could not be examined: they and what is below them may be left out"""
    cx.check(isinstance(res, dict) and res["root"] == ROOT, "the scan names its root")
    got = res["directories"]
    want = t.expected(depth, sizes)
    loose = []
    for n in t.nodes:
        m = n
        while m is not None:
            if m in maybe:
                loose.append(n)
                break
            m = m.parent
    loose_rel = [t.rel(n) for n in loose if n.kind == "dir"]
    for rel in got:
        cx.check(rel in want, "only visible directories within the depth limit are listed")
    for rel in want:
        dirs, files = want[rel]
        if rel not in got:
            cx.check(rel in loose_rel, "every visible directory is listed")
            continue
        e = got[rel]
        gd = list(e.get("dirs", []))
        gf = [tuple(x) for x in e.get("files", [])]
        here = [n for n in t.nodes if n.kind == "dir" and t.rel(n) == rel][0]
        for d in gd:
            cx.check(d in dirs and gd.count(d) == 1, "each directory is listed once, under its own parent")
        for d in dirs:
            cx.check(d in gd or here.entries[d] in loose, "each directory is listed under its parent")
        names = [x[0] for x in gf]
        for x in gf:
            cx.check(x[0] in files and names.count(x[0]) == 1, "each file is listed once, under its own parent")
            cx.check(x[1] == files[x[0]] or (x[1] == -1 and here.entries[x[0]] in loose),
                     "a file is listed with its size, or -1 if it is unknown or not asked for")
        for f in files:
            cx.check(f in names or here.entries[f] in loose, "each file is listed under its parent")
        for k in e:
            cx.check(k == "dirs" or k == "files", "nothing else is listed")


def shapes(cx, entries, names, kinds, depth, sizes, deep=True):
    """Trees of a bounded number of entries, each of any kind and anywhere."""
    t = Tree(cx)
    dirs = [t.root]
    for i in range(entries):
        parent = dirs[cx.choice("parent", len(dirs))]
        name = names[cx.choice("name", len(names))] + str(i)
        kind = cx.pick("kind", kinds)
        n = t.add(parent, name, kind, cx.int("size", 0, 1 << 50) if kind == "file" else None)
        if kind == "dir":
            dirs.append(n)
    res = scan_directory(ROOT, file_sizes=sizes, max_depth=depth)
    compare(cx, t, res, depth, sizes)
    cx.observe(len(res["directories"]))
    cx.reach("scanned")


def symbolic_names(cx, n, rng=(33, 126)):
    """Names of any characters."""
    t = Tree(cx)
    a = cx.chars("a", n, *rng)
    b = cx.chars("b", n, *rng)
    for x in (a, b):
        cx.assume(Not("/" in x))
        cx.assume(Not(x == "."))
        cx.assume(Not(x == ".."))
    cx.assume(Not(a == b))
    d = t.add(t.root, a, "dir")
    t.add(t.root, b, "file", 5)
    t.add(d, b, cx.pick("kind", ["file", "dir"]), 6)
    res = scan_directory(ROOT, file_sizes=True)
    compare(cx, t, res, 10, True)
    cx.reach("named")


def deep(cx, limit):
    """The depth limit is exact, and a limit of none is none."""
    t = Tree(cx)
    n = t.root
    for i in range(limit + 2):
        t.add(n, "f", "file", i)
        n = t.add(n, "d", "dir")
    depth = cx.pick("limit", [limit - 1, limit, limit + 1, limit + 2, limit + 3, None, 1])
    res = scan_directory(ROOT, file_sizes=True, max_depth=depth)
    compare(cx, t, res, depth, True)
    cx.reach("deep")


def default_depth(cx):
    """Without a limit given, ten levels are listed."""
    t = Tree(cx)
    n = t.root
    for i in range(12):
        t.add(n, "f", "file", i)
        n = t.add(n, "d", "dir")
    res = scan_directory(ROOT)
    compare(cx, t, res, 10, False)
    cx.reach("ten")


def volumes(cx, count):
    """Directories on any volumes with any inode numbers (distinct on their own volume)."""
    t = Tree(cx)
    ids = []
    parent = t.root
    nest = cx.fault("nested")
    for i in range(count):
        n = t.add(parent, "d%d" % i, "dir")
        n.dev, n.ino = cx.int("dev", 1, 3), cx.int("ino", 1, 5)
        for (d, k) in ids:
            cx.assume(Not(And(d == n.dev, k == n.ino)))
        ids.append((n.dev, n.ino))
        if nest:
            parent = n
    res = scan_directory(ROOT)
    compare(cx, t, res, 10, False)
    cx.reach("volumes")


def hard_links(cx):
    """Files with any numbers of names, inside the tree or out of it."""
    t = Tree(cx)
    d = t.add(t.root, "d", "dir")
    e = t.add(d, "e", "dir")
    size = cx.int("size", 0, 99)
    fs = []
    for parent, name in ((t.root, "a"), (t.root, "b"), (d, "a"), (e, "c")):
        n = t.add(parent, name, "file", size)
        n.dev, n.ino, n.nlink = cx.int("dev", 1, 2), cx.int("ino", 1000, 1001), cx.int("names", 1, 4)
        fs.append(n)
    # any of them that have the same number are the same file
    for n in fs:
        same = [And(m.dev == n.dev, m.ino == n.ino) for m in fs if m is not n]
        cx.assume(Or(n.nlink > 1, Not(Or(*same))))
    sizes = cx.fault("sizes")
    res = scan_directory(ROOT, file_sizes=sizes)
    compare(cx, t, res, 10, sizes)
    cx.reach("hard links")


def fixed(cx):
    t = Tree(cx)
    a = t.add(t.root, "a", "dir")
    t.add(t.root, "f", "file", 1)
    t.add(a, "g", "file", 2)
    b = t.add(a, "b", "dir")
    t.add(b, "h", "file", 3)
    t.add(t.root, "z", "dir")
    return t


def faults(cx):
    """One entry or directory cannot be examined: the rest is listed."""
    t = fixed(cx)
    victim = t.nodes[1 + cx.choice("victim", len(t.nodes) - 1)]
    what = cx.pick("operation", ["is_dir", "is_file", "inode", "stat", "scandir", "all"])
    error = cx.pick("error", [fsenv.err(errno.EACCES), fsenv.err(errno.ENOENT), ValueError("x")])
    hits = []

    def entry(op, e):
        if e._node is victim and (op == what or what == "all"):
            hits.append(op)
            raise error

    def hook(op, path, node):
        if node is victim and (op == what or what == "all"):
            hits.append(op)
            raise error

    cx.st["entry_hook"] = entry
    t.fs.hook = hook
    res, e = caught(scan_directory, ROOT, True)
    cx.check(e is None, "an entry that cannot be examined does not end the scan")
    compare(cx, t, res, 10, True, [victim] if hits else [])
    cx.reach("failed" if hits else "untouched")


def listing_fails(cx):
    """Reading on in a directory fails at some entry."""
    t = fixed(cx)
    n = [0]
    bad = cx.choice("failing", 14) + 1
    error = cx.pick("error", [fsenv.err(errno.EIO), fsenv.err(errno.ESTALE)])
    where = []
    opened = []

    def hook(op, path, node):
        if op == "scandir":
            opened.append(node)

    def nxt():
        n[0] += 1
        if n[0] == bad:
            where.append(1)
            raise error

    t.fs.hook = hook
    cx.st["scan_next"] = nxt
    res, e = caught(scan_directory, ROOT, True)
    cx.check(e is None, "a directory that cannot be read to its end does not end the scan")
    # what was opened before the failure may lose its remaining entries; everything is still well formed
    maybe = []
    if where:
        for d in opened:
            for c in d.entries.values():
                maybe.append(c)
    compare(cx, t, res, 10, True, maybe)
    if where:
        # a failure inside a subdirectory does not lose the entries of the directories above it
        cx.check("" in res["directories"], "the root is listed")
    cx.reach("failed" if where else "whole")


def listing_fails_below(cx):
    """Reading one subdirectory fails: all that is not in it is listed."""
    t = fixed(cx)
    which = cx.pick("directory", ["a", "a/b", "z"])
    error = cx.pick("error", [fsenv.err(errno.EIO), fsenv.err(errno.ESTALE)])
    victim = [n for n in t.nodes if t.rel(n) == which][0]
    at = cx.choice("after entries", 3)
    real = fsenv.ScanIter.__next__
    pos = {}

    def scan_iter(path, node, it):
        if node is victim:
            def gen():
                k = 0
                for x in it:
                    if k == at:
                        raise error
                    k += 1
                    yield x
                if k == at:
                    raise error
            return gen()
        return it

    cx.st["scan_iter"] = scan_iter
    res, e = caught(scan_directory, ROOT, True)
    cx.check(e is None, "a directory that cannot be read to its end does not end the scan")
    compare(cx, t, res, 10, True, list(victim.entries.values()))
    cx.reach("failed")


def links(cx, count, depth):
    """Links to anywhere, cyclic or not: the scan finishes."""
    t = fixed(cx)
    places = [n for n in t.nodes if n.kind == "dir"]
    targets = ["/r", "/r/a", "/r/a/b", "..", ".", "/r/f", "/none", "l0", "/r/l0", "/r/a/l1"]
    for i in range(count):
        d = places[cx.choice("place", len(places))]
        l = t.add(d, "l%d" % i, "link")
        l.target = cx.pick("target", targets)
    if cx.fault("links come first"):
        for d in places:
            for name in [x for x in d.entries if not x.startswith("l")]:
                n = d.entries[name]
                del d.entries[name]
                d.entries[name] = n
    res, e = caught(scan_directory, ROOT, True, depth)
    cx.check(e is None, "a scan of a tree with links succeeds")
    got = res["directories"]
    seen = []
    for rel in got:
        d = t.fs.get(ROOT + "/" + rel)
        cx.check(d.kind == "dir", "only directories are listed as such")
        seen.append(d)
        files = [tuple(x) for x in got[rel].get("files", [])]
        want = []
        for name in d.entries:
            try:
                n = t.fs.get(ROOT + "/" + rel + "/" + name)
            except OSError:
                continue
            if n.kind == "file":
                want.append((name, n.size))
        cx.check(sorted(files) == sorted(want), "each file of a listed directory is listed once, with its size")
        names = got[rel].get("dirs", [])
        for name in names:
            cx.check(t.fs.get(ROOT + "/" + rel + "/" + name).kind == "dir" and names.count(name) == 1,
                     "only directories are listed as such, once")
    for n in t.nodes:
        cx.check(n.kind != "dir" or n in seen, "every visible directory is listed at least once")
    cx.check(len(got) <= 60, "a scan lists a bounded number of directories")
    cx.observe(len(got))
    cx.reach("finished")


def wide(cx, files, dirs, levels):
    """Very many files and directories, and very many levels."""
    t = Tree(cx)
    name = cx.chars("name", 2, 97, 122)
    here = t.add(t.root, "many", "dir")
    for i in range(files):
        t.add(here, "f%d" % i, "file", i)
    t.add(here, name + ".txt", "file", cx.int("size", 0, 1 << 50))
    here = t.add(t.root, "dirs", "dir")
    for i in range(dirs):
        t.add(here, "d%d" % i, "dir")
    last = t.add(here, name, "dir")
    t.add(last, "inner", "file", 7)
    here = t.add(t.root, "deep", "dir")
    for i in range(levels):
        here = t.add(here, "d", "dir")
    t.add(here, name, "file", 9)
    t.add(t.root, "zz", "file", 11)
    res = scan_directory(ROOT, file_sizes=True, max_depth=None)
    got = res["directories"]
    want = t.expected(None, True)
    cx.check(len(got) == len(want), "every visible directory is listed, once")
    for rel in want:
        cx.check(rel in got, "every visible directory is listed")
        wd, wf = want[rel]
        e = got[rel]
        cx.check(sorted(e.get("dirs", [])) == sorted(wd) if len(wd) < 3 else
                 len(e["dirs"]) == len(wd) and len(set(e["dirs"])) == len(wd), "each directory is listed once under its parent")
        for d in wd[-2:]:
            cx.check(d in e["dirs"], "each directory is listed under its parent")
        gf = {}
        for f in e.get("files", []):
            gf[f[0]] = f[1]
        cx.check(len(e.get("files", [])) == len(wf) and same_value(gf, wf), "each file is listed once, with its size")
    cx.reach("wide")


def no_root(cx):
    kind = cx.pick("root", ["absent", "file"])
    if kind == "file":
        fsenv.fs().put("/q", b"x")
    res, e = caught(scan_directory, "/q", True)
    cx.check(e is not None, "something that is not a directory cannot be scanned")
    cx.reach("no root")


def plan(tier):
    t = tier == "thorough"
    return {
        "bounds": "all trees of %d entries (files with any size, directories, others; plain, hidden and dotted names; "
                  "any nesting), with and without sizes; all names of %d printable ASCII characters, and of 1 or 2 others; files with any number of "
                  "names; depth limits "
                  "around the depth of the tree and the default; up to %d directories with any volume and inode "
                  "numbers; one entry of a seven-node tree failing in any operation; reading a directory failing at "
                  "any point; %d links to any place, cyclic or not, coming first or last in their directories; 2200 files or 1200 "
                  "directories in one, 250 levels" % (4 if t else 3, 3 if t else 2, 4 if t else 3,
                                                                       3 if t else 2),
        "outside": "bigger trees; links to hidden places and out of the directory; files that only links beyond the depth limit lead to; the tree changing during the scan; names that are not UTF-8",
        "assumptions": ["a directory entry's inode number is unique on its volume"],
        "jobs": [
            {"fn": "shapes", "cases": [
                {"entries": 4 if t else 3, "names": ["a", ".h"], "kinds": ["file", "dir"], "depth": 10, "sizes": True},
                {"entries": 3, "names": ["..x", "n.", " "], "kinds": ["dir", "file"], "depth": 10,
                 "sizes": False},
                {"entries": 4 if t else 3, "names": ["a"], "kinds": ["file", "dir", "other"], "depth": 2,
                 "sizes": True}], "reach": ["scanned"], "hang": True, "weight": 2},
            {"fn": "symbolic_names", "cases": [{"n": k} for k in range(1, 4 if t else 3)] +
             [{"n": k, "rng": r} for k in (1, 2) for r in ((1, 32), (1, 127), (128, 255), (0x2000, 0x20ff))], "reach": ["named"]},
            {"fn": "hard_links", "reach": ["hard links"]},
            {"fn": "deep", "cases": [{"limit": 3}], "reach": ["deep"]},
            {"fn": "default_depth", "reach": ["ten"]},
            {"fn": "volumes", "cases": [{"count": 4 if t else 3}], "reach": ["volumes"]},
            {"fn": "faults", "reach": ["failed"], "hang": True},
            {"fn": "listing_fails", "reach": ["failed", "whole"], "hang": True},
            {"fn": "listing_fails_below", "reach": ["failed"], "hang": True},
            {"fn": "links", "cases": [{"count": 3 if t else 2, "depth": 10}, {"count": 2, "depth": None}],
             "reach": ["finished"], "hang": True, "max_steps": 60000, "weight": 2},
            {"fn": "wide", "cases": [{"files": 2200, "dirs": 1, "levels": 1}, {"files": 1, "dirs": 1200, "levels": 1},
                                     {"files": 1, "dirs": 1, "levels": 250}],
             "reach": ["wide"], "hang": True, "max_steps": 8000000},
            {"fn": "no_root", "reach": ["no root"]},
        ]}
