"""Semantics of calls, subscripts, membership and formatting on symbolic values.

These functions are the targets of the instrumentation (instr.py).
"""
import builtins
import enum
import io
import re as _re
import string as _string
import struct as _struct
import collections
import itertools
import functools
import types
import z3
from . import rt
from .rt import SxSignal, Unsupported
from .values import (Sym, SymBool, SymInt, SymReal, SymSeq, SymBytes, SymStr, mkseq, mkint, mkbool, zi, zv, lift,
                     int_to_str, has_sym, token, key_of, lencalc, add, sub, le, lt, same, cur, simp, is_sym, segs_of)
from .containers import SxDict, SxDefaultDict, SxSet

BuiltinMethod = type(len)
MethodWrapper = type((1).__add__)

_seq_natives = (bytes, str, bytearray)


def sx_call(f, *args, **kw):
    tf = type(f)
    if tf is BuiltinMethod:
        me = f.__self__
        tm = type(me)
        if tm is str or tm is bytes:
            if f.__name__ == "format" and tm is str:
                if has_sym(args) or has_sym(kw) or _custom_repr(args) or _custom_repr(kw.values()):
                    return str_format(me, *args, **kw)
                return f(*args, **kw)
            if f.__name__ == "join" and args and type(args[0]) not in (list, tuple):
                args = (list(args[0]),) + args[1:]
            if args:
                args = tuple(unba(a) for a in args)
            if has_sym(args) or (kw and has_sym(kw)):
                return getattr(lift(me), f.__name__)(*args, **kw)
            return f(*args, **kw)
        if tm is dict:
            if has_sym(args, 1) and f.__name__ in ("get", "pop", "setdefault", "__getitem__", "__contains__"):
                return _dict_call(me, f.__name__, args)
            return f(*args, **kw)
        if tm is list and args:
            if f.__name__ in ("index", "remove", "count"):
                pass
            elif f.__name__ in ("pop", "insert") and is_sym(args[0]):
                args = (args[0].__index__(),) + args[1:]
            elif f.__name__ == "sort":
                return f(*args, **kw)
            elif f.__name__ == "extend" and isinstance(args[0], SymSeq):
                args = (list(args[0]),)
            return f(*args, **kw)
        h = BUILTINS.get(f)
        if h is not None:
            return h(*args, **kw)
        if has_sym(args, 1):
            return _foreign(f, args, kw)
        return f(*args, **kw)
    if tf is type or isinstance(f, type):
        h = BUILTINS.get(f)
        if h is not None:
            return h(*args, **kw)
        if args and issubclass(f, enum.Enum) and is_sym(args[0]):
            return enum_call(f, args[0])
        if args and tf is type and f.__module__ in _FOREIGN_TYPES and has_sym(args, 1):
            return _foreign(f, args, kw)
        return f(*args, **kw)
    if tf is types.MethodDescriptorType or tf is types.WrapperDescriptorType:
        # str.strip(x), bytes.decode(x)...
        if args and isinstance(args[0], SymSeq) and f.__objclass__ in (bytes, str):
            return getattr(args[0], f.__name__)(*args[1:], **kw)
        if args and has_sym(args[1:]) and type(args[0]) in (bytes, str):
            return getattr(lift(args[0]), f.__name__)(*args[1:], **kw)
        return f(*args, **kw)
    try:
        h = BUILTINS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*args, **kw)
    return f(*args, **kw)


_FOREIGN_TYPES = ("builtins", "array", "datetime", "decimal")


def _dict_call(d, name, args):
    sd = SxDict(d)
    if name == "__getitem__":
        return sd[args[0]]
    if name == "__contains__":
        return args[0] in sd
    if name == "get":
        return sd.get(*args)
    if name == "pop":
        f, s = sd._locate(args[0])
        if f:
            return d.pop(s)
        if len(args) > 1:
            return args[1]
        raise KeyError(args[0])
    raise Unsupported("dict.%s with a symbolic key on a native dict" % name)


def conc(x):
    """Concretise a symbolic value (forks; noted)."""
    t = type(x)
    if t is SymInt or t is SymBool:
        return x.__index__() if t is SymInt else bool(x)
    if issubclass(t, SymSeq):
        return x.concrete()
    if t is SymReal:
        raise Unsupported("concretise a real")
    if t is tuple:
        return tuple(conc(y) for y in x)
    if t is list:
        return [conc(y) for y in x]
    return x


def _foreign(f, args, kw):
    """A C function without a model: all arguments fixed, one path per value."""
    mod = getattr(f, "__module__", None) or getattr(getattr(f, "__self__", None), "__name__", "")
    name = getattr(f, "__name__", str(f))
    me = getattr(f, "__self__", None)
    if me is not None and not isinstance(me, types.ModuleType):
        # methods of native containers and the like: pass through (list.append, deque.append...)
        if isinstance(me, (list, set, dict, collections.deque, tuple, frozenset)) or mod is None:
            return f(*args, **kw)
    if mod in ("builtins", "itertools", "functools", "operator", "_operator", "_functools", "_collections", "_abc",
               "_weakref", "_sx"):
        return f(*args, **kw)
    cur().note_concretized("call of %s.%s" % (mod, name))
    return f(*[conc(a) for a in args], **{k: conc(v) for k, v in kw.items()})


# ---------------------------------------------------------------- builtins
def m_len(x):
    if isinstance(x, SymSeq):
        return mkint(x.length())
    m = getattr(type(x), "__sx_len__", None)
    if m is not None:
        return m(x)
    return len(x)


def m_int(*a, **k):
    a = tuple(unba(x) for x in a)
    if not a:
        return int(*a, **k)
    x = a[0]
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return mkint(zv(zi(x)))
    if t is SymReal:
        return x.trunc()
    if issubclass(t, SymSeq):
        base = a[1] if len(a) > 1 else k.get("base", 10)
        return x.to_int(base)
    return int(*a, **k)


def m_float(*a):
    a = tuple(unba(x) for x in a)
    if a:
        x = a[0]
        t = type(x)
        if t is SymReal:
            return x
        if t is SymInt:
            return SymReal(z3.ToReal(x.e))
        if t is SymBool:
            return float(bool(x))
        if issubclass(t, SymSeq):
            return float(x.concrete())
    return float(*a)


def m_bool(*a):
    if a and is_sym(a[0]):
        x = a[0]
        if type(x) is SymBool:
            return x
        if type(x) is SymInt:
            return mkbool(x.e != 0)
    return bool(*a)


def _ascii_key(x):
    return key_of(x)


def sx_repr(x):
    t = type(x)
    if t is SymInt:
        return int_to_str(x)
    if t is SymBool:
        return repr(bool(x))
    if t is SymReal:
        return token(SymStr, ("realrepr", key_of(x)), x, lambda ev: repr(float(ev(x))), 3, 24)
    if issubclass(t, SymSeq):
        n = lencalc(x)
        return token(SymStr, ("repr", key_of(x)), x, lambda ev: repr(ev(x)), 2, 4000)
    if t in (list, tuple) or isinstance(x, (list, tuple)) and type(x).__repr__ in (list.__repr__, tuple.__repr__):
        if has_sym(x):
            o, c = ("[", "]") if isinstance(x, list) else ("(", ",)" if len(x) == 1 else ")")
            parts = [o]
            for i, y in enumerate(x):
                if i:
                    parts.append(", ")
                parts.append(sx_repr(y))
            parts.append(c)
            return concat(parts)
        return repr(x)
    if isinstance(x, dict) and type(x).__repr__ in (dict.__repr__, SxDict.__repr__):
        if has_sym(x):
            parts = ["{"]
            for i, (k, v) in enumerate(x.items()):
                if i:
                    parts.append(", ")
                parts += [sx_repr(k), ": ", sx_repr(v)]
            parts.append("}")
            return concat(parts)
        return dict.__repr__(x)
    r = type(x).__repr__
    if isinstance(r, types.FunctionType):
        return r(x)
    if isinstance(x, BaseException):
        if has_sym(x.args):
            return concat([type(x).__name__] + [sx_repr(tuple(x.args)) if len(x.args) != 1
                                                else concat(["(", sx_repr(x.args[0]), ")"])])
    return repr(x)


def sx_str(*a, **k):
    if not a:
        return str(**k)
    x = a[0]
    t = type(x)
    if issubclass(t, SymBytes):
        if len(a) > 1 or k:
            return x.decode(*a[1:], **k)
        return sx_repr(x)
    if len(a) > 1 or k:
        return str(*a, **k)
    if issubclass(t, SymStr):
        return x
    if issubclass(t, Sym) or t in (list, tuple) or isinstance(x, dict):
        return sx_repr(x)
    if isinstance(x, BaseException):
        s = type(x).__str__
        if isinstance(s, types.FunctionType):
            return s(x)
        if isinstance(x, KeyError) and len(x.args) == 1:
            return sx_repr(x.args[0])
        if isinstance(x, OSError) and not has_sym(x.args):
            return str(x)
        if has_sym(x.args):
            if len(x.args) == 1:
                return sx_str(x.args[0])
            return sx_repr(tuple(x.args))
        return str(x)
    s = type(x).__str__
    if isinstance(s, types.FunctionType) and type(x).__module__ != "enum":
        return s(x)
    if s is object.__str__:
        return sx_repr(x)
    return str(x)


def concat(parts):
    segs = []
    for p in parts:
        segs += segs_of(p)
    return mkseq(SymStr, segs)


def _custom_repr(args):
    """Could formatting these reach symbolic values through __repr__/__str__/exception args?"""
    for a in args:
        t = type(a)
        if t in (str, bytes, int, float, bool, type(None)):
            continue
        if t in (list, tuple):
            if _custom_repr(a):
                return True
            continue
        return True
    return False


def m_bytes(*a, **k):
    if not a:
        return bytes(*a, **k)
    x = a[0]
    if isinstance(x, SymSeq):
        if type(x) is SymStr:
            if len(a) < 2 and "encoding" not in k:
                raise TypeError("string argument without an encoding")
            return x.encode(*a[1:], **k)
        return x
    if is_sym(x):
        return bytes(x.__index__())
    if type(x) in (list, tuple) or hasattr(x, "__next__"):
        x = list(x)
        if has_sym(x):
            cells = [zi(v) for v in x]
            for c in cells:
                if not le(0, c) or not le(c, 255):
                    raise ValueError("bytes must be in range(0, 256)")
            return mkseq(SymBytes, [("e", tuple(cells))])
    if isinstance(x, SxByteArray):
        return x.get()
    return bytes(x, *a[1:], **k)


def unba(x):
    """The content of a bytearray (with symbolic content) where a bytes-like object is read."""
    t = type(x)
    if t is SxByteArray:
        return x.v
    if t in (list, tuple) and any(type(y) is SxByteArray for y in x):
        return t([y.v if type(y) is SxByteArray else y for y in x])
    return x


class SxByteArray(object):
    """bytearray with symbolic content."""

    _sx_bytes = True

    def __init__(self, v=b"", *a):
        self.v = m_bytes(v, *a) if not (isinstance(v, int) and not is_sym(v)) else bytes(v)

    @property
    def __class__(self):
        return bytearray

    def get(self):
        return self.v

    def __sx_len__(self):
        return m_len(self.v)

    def __len__(self):
        return len(self.v)

    def __bool__(self):
        return bool(self.v)

    def append(self, c):
        self.v = self.v + m_bytes([c])

    def extend(self, o):
        self.v = self.v + m_bytes(o)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        return SxByteArray(self.v + m_bytes(o))

    def __radd__(self, o):
        return m_bytes(o) + self.v

    def clear(self):
        self.v = b""

    def copy(self):
        return SxByteArray(self.v)

    def pop(self, i=-1):
        c = sx_getitem(self.v, i)
        del self[i]
        return c

    def insert(self, i, c):
        self.v = lift(self.v)[:i] + m_bytes([c]) + lift(self.v)[i:]

    def __contains__(self, x):
        return bool(sx_in(unba(x), self.v))

    def __getitem__(self, i):
        r = sx_getitem(self.v, i)
        return SxByteArray(r) if isinstance(i, slice) else r

    def __setitem__(self, i, val):
        v = lift(self.v)
        if isinstance(i, slice):
            n = mkint(v.length())
            a = sx_getitem(self.v, slice(None, i.start)) if i.start is not None else b""
            b = sx_getitem(self.v, slice(i.stop, None)) if i.stop is not None else b""
            self.v = a + m_bytes(val) + b
        else:
            self.v = v[:i] + m_bytes([val]) + v[i + 1:]

    def __delitem__(self, i):
        if isinstance(i, slice):
            a = sx_getitem(self.v, slice(None, i.start)) if i.start is not None else b""
            b = sx_getitem(self.v, slice(i.stop, None)) if i.stop is not None else b""
            self.v = a + b
        else:
            v = lift(self.v)
            if i < 0:
                i = i + m_len(v)
            self.v = v[:i] + v[i + 1:]

    def __iter__(self):
        return iter(self.v)

    def __eq__(self, o):
        return self.v == (o.v if isinstance(o, SxByteArray) else o)

    __hash__ = None

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(lift(self.v), name)


def m_bytearray(*a, **k):
    return SxByteArray(*a)


def m_memoryview(x):
    x = unba(x)
    return x if isinstance(x, SymSeq) else memoryview(x)


def m_type(*a):
    if len(a) == 1:
        t = type(a[0])
        if issubclass(t, Sym):
            return a[0].__class__
        if t is SxDict:
            return dict
        if t is SxSet:
            return set
        if t is SxByteArray:
            return bytearray
        if t is SxDefaultDict:
            return collections.defaultdict
        return t
    return type(*a)


def m_range(*a):
    if not has_sym(a):
        return range(*a)
    if len(a) == 1:
        a = (0, a[0])
    start, stop = a[0], a[1]
    step = a[2] if len(a) > 2 else 1
    if is_sym(step):
        step = step.__index__()
    if step == 0:
        raise ValueError("range() arg 3 must not be zero")
    return _symrange(start, stop, step)


def _symrange(i, stop, step):
    while bool(i < stop) if step > 0 else bool(i > stop):
        cur().step()
        yield i
        i = i + step


def m_ord(c):
    if isinstance(c, SymSeq):
        cells = c.cells()
        if len(cells) != 1:
            raise TypeError("ord() expected a character")
        return mkint(zv(cells[0]))
    return ord(c)


def m_chr(i):
    if is_sym(i):
        return mkseq(SymStr, [("e", (zi(i),))])
    return chr(i)


def m_format(x, spec=""):
    if has_sym(x) or has_sym(spec) or _custom_repr([x]):
        return format_field(x, spec)
    return format(x, spec)


def m_print(*a, **k):
    return None


def m_hash(x):
    if is_sym(x) or has_sym(x):
        return 0x5e
    return hash(x)


def m_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def m_max(*a, **k):
    return _minmax(a, k, lambda x, y: bool(y > x), max)


def m_min(*a, **k):
    return _minmax(a, k, lambda x, y: bool(y < x), min)


def _minmax(a, k, better, native):
    key = k.get("key")
    items = list(a[0]) if len(a) == 1 else list(a)
    if not items or not (has_sym(items) or key is not None):
        return native(items, **k) if items or "default" in k else native([], **k)
    best = items[0]
    bk = key(best) if key else best
    for x in items[1:]:
        xk = key(x) if key else x
        if better(bk, xk):
            best, bk = x, xk
    return best


def m_round(x, n=None):
    if is_sym(x):
        return x.__round__(n) if type(x) is SymReal else x
    return round(x, n)


def m_dict(*a, **k):
    return SxDict(*a, **k)


def m_set(*a):
    return SxSet(*a)


def m_frozenset(*a):
    items = list(a[0]) if a else []
    return SxSet(items) if has_sym(items) else frozenset(items)


def m_defaultdict(*a, **k):
    return SxDefaultDict(*a, **k)


def m_getattr(o, name, *d):
    if is_sym(name):
        name = name.concrete()
    return getattr(o, name, *d)


def m_setattr(o, name, v):
    if is_sym(name):
        name = name.concrete()
    return setattr(o, name, v)


def m_isinstance(x, t):
    return isinstance(x, t)


class SxBytesIO(object):
    def __init__(self, data=b""):
        self.data = data
        self.pos = 0
        self.closed = False

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def read(self, n=-1):
        self._chk()
        data = self.data
        if n is None:
            n = -1
        if not is_sym(data) and not is_sym(n) and not is_sym(self.pos):
            r = data[self.pos:] if n < 0 else data[self.pos:self.pos + n]
            self.pos = self.pos + len(r)
            return r
        s = lift(data)
        if n < 0:
            r = s[self.pos:]
        else:
            r = s[self.pos:self.pos + n]
        self.pos = self.pos + m_len(r)
        return r

    read1 = read

    def readline(self, *a):
        self._chk()
        s = lift(self.data)
        rest = lift(s[self.pos:])
        i = rest.find(b"\n")
        r = rest[:] if i < 0 else rest[:i + 1]
        self.pos = self.pos + m_len(r)
        return r

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def readlines(self):
        return list(self)

    def getvalue(self):
        return self.data

    def getbuffer(self):
        return self.data

    def tell(self):
        return self.pos

    def seek(self, p, whence=0):
        if whence == 1:
            p = self.pos + p
        elif whence == 2:
            p = m_len(self.data) + p
        self.pos = p
        return p

    def write(self, b):
        n = m_len(self.data)
        s = lift(self.data)
        if not (self.pos == n):
            head, tail = s[:self.pos], s[self.pos + m_len(b):]
        else:
            head, tail = s[:], b""
        self.data = head + b + tail
        self.pos = self.pos + m_len(b)
        return m_len(b)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def readable(self):
        return True


def enum_call(cls, v):
    for m in cls:
        if type(m.value) in (int, bool) and type(v) in (SymInt, SymBool) or \
                type(m.value) is str and type(v) is SymStr or type(m.value) is bytes and type(v) is SymBytes:
            if bool(v == m.value):
                return m
    raise ValueError("%s is not a valid %s" % ("<symbolic>", cls.__name__))


def m_sorted(it, key=None, reverse=False):
    items = list(it)
    keys = [key(x) for x in items] if key is not None else items
    if not has_sym(keys):
        return sorted(items, key=key, reverse=reverse)
    # stable insertion sort, every comparison decided
    out = []
    for x, k in zip(items, keys):
        i = len(out)
        while i > 0 and (bool(k < out[i - 1][1]) if not reverse else bool(out[i - 1][1] < k)):
            i -= 1
        out.insert(i, (x, k))
    return [x for x, _ in out]


_rep = _re.compile(r"(\d+)([a-zA-Z?])")


def _codes(fmt):
    """The codes of a format with repeat counts written out; strings are not modelled."""
    fmt = fmt.lstrip("<>!=@").replace(" ", "")
    if "s" in fmt or "p" in fmt:
        raise Unsupported("struct format %r" % fmt)
    return _rep.sub(lambda m: m.group(2) * int(m.group(1)), fmt)


def m_struct_pack(fmt, *a):
    if has_sym(a):
        if not isinstance(fmt, str):
            fmt = fmt.decode()
        order = fmt[0] if fmt[0] in "<>!=@" else "@"
        out = []
        codes = _codes(fmt)
        if len(codes) != len(a):
            raise _struct.error("pack expected %d items for packing (got %d)" % (len(codes), len(a)))
        pos = 0
        for ch, v in zip(codes, a):
            if order == "@":
                al = _struct.calcsize("@" + ch)
                if pos % al:
                    out.append(("c", b"\0" * (al - pos % al)))
                pos = (pos + al - 1) // al * al + al
            end = "@" if order == "@" else "<" if order in "<=" else ">"
            size = _struct.calcsize(end + ch)
            if not is_sym(v):
                out.append(("c", _struct.pack(end + ch, v)))
                continue
            if type(v) is not SymInt or ch not in "bBhHiIlLqQ":
                raise _struct.error("required argument is not an integer")
            lo, hi = (-256 ** size // 2, 256 ** size // 2) if ch.islower() else (0, 256 ** size)
            if bool(v < lo) or bool(v >= hi):
                raise _struct.error("%r format requires %d <= number <= %d" % (ch, lo, hi - 1))
            e = v.e
            cells = [simp((e / (256 ** i)) % 256) for i in range(size)]
            if order in ">!":
                cells.reverse()
            out.append(("e", tuple(cells)))
        return mkseq(SymBytes, out)
    return _struct.pack(fmt, *a)


def m_struct_unpack(fmt, data):
    data = unba(data)
    if is_sym(data):
        order = fmt[0] if fmt[0] in "<>!=@" else "@"
        codes = _codes(fmt)
        end = "<" if order in "<=@" else ">"
        out, pos = [], 0
        for ch in codes:
            if order == "@":
                a = _struct.calcsize("@" + ch)
                pos = (pos + a - 1) // a * a
            size = _struct.calcsize(end + ch) if order != "@" else _struct.calcsize("@" + ch)
            cells = lift(data[pos:pos + size]).cells()
            if order in ">!":
                cells = cells[::-1]
            v = 0
            for i, c in enumerate(cells):
                v = zv(v) + zv(c) * 256 ** i
            v = simp(v)
            if ch in "bhilq":
                v = simp(z3.If(zv(v) >= 256 ** size // 2, zv(v) - 256 ** size, zv(v)))
            out.append(mkint(zv(v)) if not isinstance(v, int) else v)
            pos += size
        return tuple(out)
    return _struct.unpack(fmt, data)


def m_map(f, *its):
    return (sx_call(f, *a) for a in zip(*its))


def m_filter(f, it):
    return (x for x in it if (sx_call(f, x) if f is not None else x))


def m_iter(*a):
    if len(a) == 2:
        return _iter_call(a[0], a[1])
    return iter(*a)


def _iter_call(f, sentinel):
    while True:
        cur().step()
        v = sx_call(f)
        if v == sentinel:
            return
        yield v


def m_partial(f, *a, **k):
    def call(*b, **l):
        kk = dict(k)
        kk.update(l)
        return sx_call(f, *(a + b), **kk)
    call.func = f
    call.args = a
    call.keywords = k
    return call


def m_divmod(a, b):
    return (a // b, a % b) if is_sym(a) or is_sym(b) else divmod(a, b)


def m_deque(it=(), maxlen=None):
    return collections.deque(it, maxlen)


def m_list(*a):
    if a and isinstance(a[0], SymSeq):
        return list(iter(a[0]))
    return list(*a)


def m_join_path(*a):
    raise Unsupported("native os.path")


def m_callable(x):
    return callable(x)


def m_pow(a, b, *m):
    if is_sym(b):
        b = b.__index__()
    return pow(a, b, *m)


BUILTINS = {
    len: m_len, int: m_int, float: m_float, bool: m_bool, str: sx_str, repr: sx_repr, bytes: m_bytes,
    bytearray: m_bytearray, memoryview: m_memoryview, type: m_type, range: m_range, ord: m_ord, chr: m_chr,
    format: m_format, print: m_print, hash: m_hash, sum: m_sum, max: m_max, min: m_min, round: m_round,
    dict: m_dict, set: m_set, frozenset: m_frozenset, collections.defaultdict: m_defaultdict,
    getattr: m_getattr, setattr: m_setattr, sorted: m_sorted, io.BytesIO: SxBytesIO,
    _struct.pack: m_struct_pack, _struct.unpack: m_struct_unpack, map: m_map, filter: m_filter, iter: m_iter,
    functools.partial: m_partial, divmod: m_divmod, list: m_list, pow: m_pow, enumerate: enumerate, zip: zip,
    reversed: reversed, isinstance: isinstance, ascii: sx_repr, collections.OrderedDict: m_dict,
}


# ---------------------------------------------------------------- operators
def sx_getitem(o, i):
    t = type(o)
    if t is SymBytes or t is SymStr:
        return o[i]
    ti = type(i)
    if ti is slice:
        if (is_sym(i.start) or is_sym(i.stop)) and t in (bytes, str):
            return lift(o)[i]
        if t is list or t is tuple:
            if is_sym(i.start) or is_sym(i.stop) or is_sym(i.step):
                i = slice(conc(i.start), conc(i.stop), conc(i.step))
        return o[i]
    if issubclass(ti, Sym):
        if t is bytes or t is str:
            return lift(o)[i]
        if t is dict:
            return SxDict(o)[i]
        if isinstance(o, enum.EnumMeta):
            return o[conc(i)]
        if ti is SymInt and (t is list or t is tuple):
            n = len(o)
            if bool(i >= n) or bool(i < -n):
                raise IndexError("list index out of range")
            return o[i.__index__()]
    elif ti is tuple and t is dict and has_sym(i):
        return SxDict(o)[i]
    return o[i]


def sx_in(x, c):
    t = type(c)
    if t is SymBytes or t is SymStr:
        return c.__contains__(x)
    if is_sym(x) or (type(x) is tuple and has_sym(x)):
        if t is bytes or t is str:
            return lift(c).__contains__(x)
        if t is dict:
            return x in SxDict(c)
        if t is set or t is frozenset:
            return x in SxSet(c)
        if isinstance(c, type({}.keys())):
            return x in SxSet(c)
        if t is range:
            return any(bool(x == v) for v in c)
        if isinstance(c, enum.EnumMeta):
            return any(bool(x == m.value) for m in c)
    return x in c


def sx_not_in(x, c):
    return not sx_in(x, c)


class FormatSpec(object):
    pass


_spec_re = _re.compile(r"^(?:(.)?([<>^=]))?([-+ ])?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?$", _re.S)


def format_field(v, spec=""):
    """format(v, spec) for possibly symbolic v; returns text."""
    if is_sym(spec):
        spec = spec.concrete()
    t = type(v)
    if spec == "":
        if is_sym(v) or has_sym(v) or not isinstance(v, (int, float, str, bytes)):
            return sx_str(v)
        return format(v, spec)
    if not is_sym(v):
        if has_sym(v) or type(v).__format__ is object.__format__:
            raise TypeError("unsupported format string passed to %s.__format__" % t.__name__)
        return format(v, spec)
    if t is SymReal:
        key = ("fmt", spec, key_of(v))
        return token(SymStr, key, v, lambda ev: format(float(ev(v)), spec), 1, 40)
    m = _spec_re.match(spec)
    if not m:
        raise ValueError("Invalid format specifier")
    fill, align, sign, alt, zero, width, comma, prec, typ = m.groups()
    if t is SymInt and typ in (None, "d") and not (align or sign or alt or width or comma or prec):
        return int_to_str(v)
    if t is SymStr and typ in (None, "s"):
        r = v
        if prec:
            r = r[:int(prec)]
        if width:
            n = mkint(zv(lencalc(r)))
            w = int(width)
            if bool(n < w):
                nn = len(r)
                pad = (fill or " ") * (w - nn)
                if align == ">":
                    return pad + r
                if align == "^":
                    a = (w - nn) // 2
                    return (fill or " ") * a + r + (fill or " ") * (w - nn - a)
                return r + pad
        return r
    if t is SymInt and typ in ("f", "F", "e", "g", "%"):
        return token(SymStr, ("fmt", spec, key_of(v)), v, lambda ev: format(ev(v), spec), 1, 40)
    if t is SymInt and typ in (None, "d") and width and not comma:
        s = int_to_str(v)
        n = len(s)
        w = int(width)
        if n >= w:
            return s
        if zero and not align:
            if bool(v < 0):
                return "-" + "0" * (w - n) + s[1:]
            return "0" * (w - n) + s
        return s + (fill or " ") * (w - n) if align == "<" else (fill or " ") * (w - n) + s
    return format(conc(v), spec)


def _convert(v, conv):
    if conv == "r" or conv == "a":
        return sx_repr(v)
    if conv == "s":
        return sx_str(v)
    return v


class _Fmt(_string.Formatter):
    pass


_fmt = _Fmt()


def str_format(template, *args, **kw):
    auto = [0]
    return concat(_format_parts(template, args, kw, auto, 2))


def _format_parts(template, args, kw, auto, depth):
    parts = []
    if depth < 0:
        raise ValueError("Max string recursion exceeded")
    for lit, field, spec, conv in _fmt.parse(template):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        first, rest = _split_field(field)
        if first == "":
            if auto[0] is None:
                raise ValueError("cannot switch from manual field specification to automatic field numbering")
            k = auto[0]
            auto[0] += 1
        elif first.isdigit():
            k = int(first)
            if auto[0]:
                raise ValueError("cannot switch from automatic field numbering to manual field specification")
            auto[0] = None
        else:
            k = first
        if isinstance(k, int):
            if k >= len(args):
                raise IndexError("Replacement index %d out of range for positional args tuple" % k)
            v = args[k]
        else:
            v = kw[k]
        for is_attr, x in rest:
            v = getattr(v, x) if is_attr else sx_getitem(v, x)
        v = _convert(v, conv)
        if spec:
            spec = concat(_format_parts(spec, args, kw, auto, depth - 1))
        parts.append(format_field(v, spec or ""))
    return parts


def _split_field(field):
    import _string as cs
    first, rest = cs.formatter_field_name_split(field)
    return str(first), list(rest)


_pct = _re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?"
                   r"(?P<type>.)", _re.S)


def mod(fmt, args):
    """fmt % args for text or bytes templates."""
    isb = isinstance(fmt, bytes)
    text = fmt.decode("latin-1") if isb else fmt
    parts = []
    pos = 0
    i = 0
    tup = args if type(args) is tuple or isinstance(args, tuple) else None
    used = False
    items = tup if tup is not None else (args,)
    for m in _pct.finditer(text):
        if m.start() > pos:
            parts.append(text[pos:m.start()])
        pos = m.end()
        ty = m.group("type")
        if ty == "%":
            parts.append("%")
            continue
        if m.group("width") == "*" or m.group("prec") == "*":
            raise Unsupported("'*' in %-format")
        if m.group("key") is not None:
            v = sx_getitem(args, m.group("key"))
            used = True
        else:
            if i >= len(items):
                raise TypeError("not enough arguments for format string")
            v = items[i]
            i += 1
        spec = "%" + m.group("flags") + (m.group("width") or "") + ("." + m.group("prec") if m.group("prec") else "") + ty
        parts.append(_mod_field(v, ty, m, spec, isb))
    rest = text[pos:]
    if "%" in rest:
        raise ValueError("incomplete format")
    parts.append(rest)
    if i < len(items) and not used and not (tup is None and isinstance(args, dict)):
        raise TypeError("not all arguments converted during string formatting")
    if isb:
        segs = []
        for p in parts:
            if isinstance(p, SymBytes):
                segs += p.segs
            elif isinstance(p, SymStr):
                segs += segs_of(p.encode("utf-8"))
            elif isinstance(p, bytes):
                segs.append(("c", p))
            else:
                segs.append(("c", p.encode("latin-1")))
        return mkseq(SymBytes, segs)
    return concat(parts)


def _mod_field(v, ty, m, spec, isb):
    if ty in "sb":
        if isb:
            if isinstance(v, (bytes, bytearray)):
                return v
            raise TypeError("%b requires a bytes-like object")
        s = sx_str(v)
    elif ty in "ra":
        s = sx_repr(v)
    elif ty in "diu":
        if isinstance(v, SymReal):
            v = v.trunc()
        if not isinstance(v, (int, float)):
            raise TypeError("%%%s format: a real number is required, not %s" % (ty, m_type(v).__name__))
        if not is_sym(v):
            return spec % v
        s = int_to_str(v) if type(v) is SymInt else str(int(v))
    elif type(v) is SymReal or (type(v) is SymInt and ty in "fFeEgG"):
        return token(SymStr, ("pct", spec, key_of(v)), v, lambda ev: spec % float(ev(v)), 1, 40)
    else:
        if not isinstance(v, (int, float, str)):
            raise TypeError("%%%s format: a number is required, not %s" % (ty, m_type(v).__name__))
        if is_sym(v):
            v = conc(v)
        return spec % v
    if m.group("prec"):
        s = s[:int(m.group("prec"))]
    if m.group("width"):
        n = len(s)
        w = int(m.group("width"))
        if n < w:
            s = s + " " * (w - n) if "-" in m.group("flags") else (
                ("0" if "0" in m.group("flags") and ty in "diu" else " ") * (w - n) + s)
    return s


def sx_mod(a, b):
    t = type(a)
    if (t is str or t is bytes) and (has_sym(b) or _custom_repr(b if type(b) is tuple else (b,))):
        return mod(a, b)
    return a % b


def sx_fstr(*parts):
    """parts: text | (value, conversion, spec)"""
    out = []
    for p in parts:
        if type(p) is tuple:
            v, c, s = p
            v = _convert(v, c)
            out.append(format_field(v, s if s is not None else ""))
        else:
            out.append(p)
    return concat(out)


def sx_dict(*pairs):
    d = SxDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def sx_set(*items):
    return SxSet(items)


def sx_guard():
    """First statement of a handler that would also catch engine signals."""
    import sys
    e = sys.exc_info()[1]
    if isinstance(e, SxSignal):
        raise e


def sx_loop():
    c = rt.cx
    if c is not None:
        c.step()


def sx_enter(name):
    c = rt.cx
    if c is not None:
        c.ex.stats.functions.add(name)


def sx_yield(line):
    c = rt.cx
    if c is not None and c.threads is not None:
        c.threads.yield_point(line)


NAMES = {
    "__sx_call__": sx_call, "__sx_in__": sx_in, "__sx_not_in__": sx_not_in, "__sx_getitem__": sx_getitem,
    "__sx_mod__": sx_mod, "__sx_fstr__": sx_fstr, "__sx_dict__": sx_dict, "__sx_set__": sx_set,
    "__sx_guard__": sx_guard, "__sx_loop__": sx_loop, "__sx_enter__": sx_enter, "__sx_yield__": sx_yield,
    "__sx_Dict__": SxDict, "__sx_Set__": SxSet, "__sx_slice__": slice,
}
