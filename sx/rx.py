"""Regular expressions on strings with symbolic characters: a backtracking matcher over sre_parse trees.

Concrete subjects go to the real re module.
"""
import re as _re
try:
    from re import _parser as _sp, _constants as _sc
except ImportError:                     # Python 3.9
    import sre_parse as _sp
    import sre_constants as _sc
from .rt import Unsupported


def _is_sym(s):
    from .values import is_sym
    return is_sym(s)


def _chars(s):
    """list of characters (native one-character strings or symbolic ones)"""
    from .values import lift
    q = lift(s)
    n = len(q) if not hasattr(q, "__sx_len__") else q.__sx_len__()
    n = n.__index__()
    return [q[i:i + 1] for i in range(n)], q


def _code(c, isb):
    if isinstance(c, (str, bytes)) and type(c) in (str, bytes):
        return ord(c)
    from .ops import m_ord
    return m_ord(c)


def _cat(code, cat, uni):
    name = str(cat)
    neg = "_NOT_" in name
    if "SPACE" in name:
        r = (code == 32) | ((code >= 9) & (code <= 13))
        if uni:
            r = (r | ((code >= 28) & (code <= 31)) | (code == 0x85) | (code == 0xa0) | (code == 0x1680) |
                 ((code >= 0x2000) & (code <= 0x200a)) | (code == 0x2028) | (code == 0x2029) | (code == 0x202f) |
                 (code == 0x205f) | (code == 0x3000))
    elif uni and bool(code >= 128):
        raise Unsupported("regex category %s of a character outside ASCII" % name)
    elif "DIGIT" in name:
        r = (code >= 48) & (code <= 57)
    elif "WORD" in name:
        r = ((code >= 48) & (code <= 57)) | ((code >= 65) & (code <= 90)) | ((code >= 97) & (code <= 122)) | (code == 95)
    else:
        raise Unsupported("regex category %s" % name)
    r = bool(r)
    return (not r) if neg else r


def _in(code, items, uni):
    neg = False
    for op, av in items:
        if op is _sc.NEGATE:
            neg = True
            continue
        if op is _sc.LITERAL:
            m = bool(code == av)
        elif op is _sc.RANGE:
            m = bool((code >= av[0]) & (code <= av[1]))
        elif op is _sc.CATEGORY:
            m = _cat(code, av, uni)
        else:
            raise Unsupported("regex set item %s" % op)
        if m:
            return not neg
    return neg


class M(object):
    """A compiled pattern applied to one subject."""

    def __init__(self, rx, s):
        self.rx = rx
        self.cs, self.s = _chars(s)
        self.codes = [None] * len(self.cs)
        self.isb = isinstance(s, bytes)

    def code(self, i):
        c = self.codes[i]
        if c is None:
            c = self.codes[i] = _code(self.cs[i], self.isb)
        return c

    def run(self, ops, k, i, groups, cont):
        if k == len(ops):
            return cont(i, groups)
        op, av = ops[k]
        n = len(self.cs)
        nxt = lambda j, g: self.run(ops, k + 1, j, g, cont)
        if op is _sc.LITERAL:
            if i < n and bool(self.code(i) == av):
                return nxt(i + 1, groups)
            return None
        if op is _sc.NOT_LITERAL:
            if i < n and not bool(self.code(i) == av):
                return nxt(i + 1, groups)
            return None
        if op is _sc.ANY:
            if i < n and (self.rx.flags & _re.DOTALL or not bool(self.code(i) == 10)):
                return nxt(i + 1, groups)
            return None
        if op is _sc.IN:
            if i < n and _in(self.code(i), av, self.rx.uni):
                return nxt(i + 1, groups)
            return None
        if op is _sc.SUBPATTERN:
            gid, _a, _d, p = av
            def close(j, g, gid=gid, i=i):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (i, j)
                return nxt(j, g)
            return self.run(list(p), 0, i, groups, close)
        if op is _sc.BRANCH:
            for p in av[1]:
                r = self.run(list(p), 0, i, groups, nxt)
                if r is not None:
                    return r
            return None
        if op in (_sc.MAX_REPEAT, _sc.MIN_REPEAT):
            lo, hi, p = av
            p = list(p)
            greedy = op is _sc.MAX_REPEAT

            def rep(cnt, j, g):
                def more():
                    if hi is not _sc.MAXREPEAT and cnt >= hi:
                        return None
                    return self.run(p, 0, j, g, lambda j2, g2: rep(cnt + 1, j2, g2) if j2 > j or cnt < lo else None)
                if cnt < lo:
                    return more()
                if greedy:
                    r = more()
                    return r if r is not None else nxt(j, g)
                r = nxt(j, g)
                return r if r is not None else more()
            return rep(0, i, groups)
        if op is _sc.AT:
            name = str(av)
            if name in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                ok = i == 0 or (name == "AT_BEGINNING" and self.rx.flags & _re.MULTILINE and bool(self.code(i - 1) == 10))
            elif name == "AT_END":
                ok = i == n or (i == n - 1 and bool(self.code(i) == 10)) or \
                    (self.rx.flags & _re.MULTILINE and bool(self.code(i) == 10))
            elif name == "AT_END_STRING":
                ok = i == n
            else:
                raise Unsupported("regex %s" % name)
            return nxt(i, groups) if ok else None
        raise Unsupported("regex operation %s" % op)

    def at(self, i, full=False):
        n = len(self.cs)
        return self.run(self.rx.tree, 0, i, {}, lambda j, g: (i, j, g) if (not full or j == n) else None)

    def scan(self, start=0):
        """all non-overlapping matches"""
        i = start
        n = len(self.cs)
        last_empty = -1
        while i <= n:
            r = self.at(i)
            if r is None:
                i += 1
                continue
            yield Match(self, r)
            if r[1] == r[0]:
                i += 1
            else:
                i = r[1]


class Match(object):
    def __init__(self, m, r):
        self.m = m
        self.i, self.j, self.g = r
        self.string = m.s

    def span(self, n=0):
        if n == 0:
            return (self.i, self.j)
        n = self.m.rx.index(n)
        return self.g.get(n, (-1, -1))

    def start(self, n=0):
        return self.span(n)[0]

    def end(self, n=0):
        return self.span(n)[1]

    def group(self, *ns):
        if not ns:
            ns = (0,)
        out = []
        for n in ns:
            a, b = self.span(n)
            out.append(None if a < 0 else self.m.s[a:b])
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        out = []
        for n in range(1, self.m.rx.ngroups + 1):
            v = self.group(n)
            out.append(default if v is None else v)
        return tuple(out)

    def groupdict(self, default=None):
        return dict((k, self.group(v)) for k, v in self.m.rx.names.items())

    def __bool__(self):
        return True


class Rx(object):
    def __init__(self, pattern, flags=0):
        self.real = _re.compile(pattern, flags)
        self.pattern = pattern
        t = _sp.parse(pattern, flags)
        self.tree = list(t)
        self.flags = self.real.flags
        self.uni = isinstance(pattern, str) and not self.flags & _re.ASCII
        if self.flags & _re.IGNORECASE:
            self.tree = None
        self.ngroups = self.real.groups
        self.names = self.real.groupindex

    def index(self, n):
        return self.names[n] if isinstance(n, str) else n

    def m(self, s):
        if self.tree is None:
            raise Unsupported("case-insensitive regex")
        return M(self, s)

    def match(self, s, pos=0):
        if not _is_sym(s):
            return self.real.match(s, pos)
        m = self.m(s)
        r = m.at(pos)
        return None if r is None else Match(m, r)

    def fullmatch(self, s):
        if not _is_sym(s):
            return self.real.fullmatch(s)
        m = self.m(s)
        r = m.at(0, True)
        return None if r is None else Match(m, r)

    def search(self, s, pos=0):
        if not _is_sym(s):
            return self.real.search(s, pos)
        for x in self.m(s).scan(pos):
            return x
        return None

    def finditer(self, s):
        if not _is_sym(s):
            return self.real.finditer(s)
        return self.m(s).scan()

    def findall(self, s):
        if not _is_sym(s):
            return self.real.findall(s)
        out = []
        for x in self.m(s).scan():
            if self.ngroups == 0:
                out.append(x.group())
            elif self.ngroups == 1:
                v = x.group(1)
                out.append(s[:0] if v is None else v)
            else:
                out.append(x.groups(s[:0]))
        return out

    def split(self, s, maxsplit=0):
        if not _is_sym(s):
            return self.real.split(s, maxsplit)
        m = self.m(s)
        out = []
        p = 0
        for x in m.scan():
            if maxsplit and len(out) >= maxsplit:
                break
            out.append(m.s[p:x.i])
            out.extend(x.groups())
            p = x.j
        out.append(m.s[p:])
        return out

    def sub(self, repl, s, count=0):
        if not _is_sym(s):
            return self.real.sub(repl, s, count)
        m = self.m(s)
        out = m.s[:0]
        p = 0
        n = 0
        for x in m.scan():
            if count and n >= count:
                break
            out = out + m.s[p:x.i]
            if callable(repl):
                out = out + repl(x)
            else:
                if "\\" in (repl if isinstance(repl, str) else repl.decode("latin-1")):
                    raise Unsupported("template in re.sub")
                out = out + repl
            p = x.j
            n += 1
        return out + m.s[p:]


def compile(p, flags=0):
    if isinstance(p, Rx):
        return p
    return Rx(p, flags)


def split(p, s, maxsplit=0, flags=0):
    return compile(p, flags).split(s, maxsplit)


def sub(p, repl, s, count=0, flags=0):
    return compile(p, flags).sub(repl, s, count)


def findall(p, s, flags=0):
    return compile(p, flags).findall(s)


def finditer(p, s, flags=0):
    return compile(p, flags).finditer(s)


def match(p, s, flags=0):
    return compile(p, flags).match(s)


def search(p, s, flags=0):
    return compile(p, flags).search(s)


def fullmatch(p, s, flags=0):
    return compile(p, flags).fullmatch(s)
