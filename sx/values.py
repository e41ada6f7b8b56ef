"""Symbolic values: integers, booleans, reals and sequences (bytes / text) as ropes.

A sequence is a list of segments:
  ('c', native)                concrete bytes / text
  ('e', (cell, ...))           cells: z3 Int expressions or ints
  ('o', src, start, length)    a window of an opaque source (arbitrary content, lazily constrained)
Lengths and starts are Python ints or z3 Int expressions ("zi").
"""
import z3
from fractions import Fraction
from . import rt
from .rt import Unsupported

_TRUE = True
_FALSE = False


def cur():
    c = rt.cx
    if c is None:
        raise Unsupported("symbolic value used outside a path")
    return c


# ---------------------------------------------------------------- zi helpers
def simp(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return e


def zi(x):
    """int / bool / SymInt / SymBool -> int or z3 Int"""
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return simp(z3.If(x.e, 1, 0))
    if isinstance(x, z3.ArithRef):
        return x
    return int(x)


def zv(x):
    """zi -> z3 expr"""
    return z3.IntVal(x) if isinstance(x, int) else x


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return simp(zv(a) + zv(b))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return simp(zv(a) - zv(b))


def same(a, b):
    """Structurally equal?"""
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a.eq(b)


def lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return cur().decide(zv(a) < zv(b))


def le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    if same(a, b):
        return True
    return cur().decide(zv(a) <= zv(b))


def eqd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if same(a, b):
        return True
    return cur().decide(zv(a) == zv(b))


def mkint(e):
    e = simp(e)
    return e if isinstance(e, int) else SymInt(e)


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def be(x):
    """bool / SymBool / z3 bool -> z3 Bool"""
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, SymInt):
        return x.e != 0
    return z3.BoolVal(bool(x))


def conj(es):
    es = [e for e in es if e is not True]
    if any(e is False for e in es):
        return False
    if not es:
        return True
    return z3.And([be(e) for e in es]) if len(es) > 1 else es[0]


# ---------------------------------------------------------------- scalars
class Sym(object):
    __slots__ = ()


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().decide(self.e)

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if o is True or o is False:
            return mkbool(self.e if o else z3.Not(self.e))
        if isinstance(o, (int, float)):
            return SymInt(zi(self)) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else neg(r)

    def __hash__(self):
        return hash(bool(self))

    def _b(self, o, f):
        if isinstance(o, (bool, SymBool)):
            return mkbool(f(self.e, be(o)))
        return NotImplemented

    def __and__(self, o):
        return self._b(o, z3.And)

    __rand__ = __and__

    def __or__(self, o):
        return self._b(o, z3.Or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._b(o, z3.Xor)

    __rxor__ = __xor__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __repr__(self):
        return "<SymBool>"

    def __str__(self):
        return "<SymBool>"

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(SymInt(zi(self)), name)

    def _arith(name):
        def f(self, o):
            return getattr(_asint(self), name)(o)
        return f

    for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "lt", "le", "gt", "ge", "floordiv", "mod"):
        locals()["__%s__" % _n] = _arith("__%s__" % _n)
    del _n, _arith


def _asint(x):
    v = zi(x)
    return SymInt(v) if not isinstance(v, int) else SymInt(z3.IntVal(v))


def neg(x):
    if isinstance(x, SymBool):
        return mkbool(z3.Not(x.e))
    return not x


def _num(o):
    """-> ('i', zi) | ('r', z3 real) | None"""
    if isinstance(o, SymReal):
        return "r", o.e
    if isinstance(o, SymInt):
        return "i", o.e
    if isinstance(o, SymBool):
        return "i", zi(o)
    if isinstance(o, int):
        return "i", int(o)
    if isinstance(o, float):
        return "r", real_val(o)
    if isinstance(o, Fraction):
        return "r", real_val(o)
    return None


def real_val(x):
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, z3.ArithRef):
        return x if x.is_real() else z3.ToReal(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float")
    f = Fraction(x)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


def mkreal(e):
    return SymReal(z3.simplify(e))


class SymInt(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    def __bool__(self):
        return cur().decide(self.e != 0)

    def __hash__(self):
        return hash(self.__index__())

    def __index__(self):
        return cur().concretize(self.e)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __repr__(self):
        return "<SymInt>"

    __str__ = __repr__

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def _cmp(self, o, op):
        n = _num(o)
        if n is None:
            return NotImplemented
        if n[0] == "i":
            return mkbool(op(self.e, zv(n[1])))
        return mkbool(op(z3.ToReal(self.e), n[1]))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _ar(self, o, op, r=False):
        n = _num(o)
        if n is None:
            return NotImplemented
        if n[0] == "i":
            a, b = self.e, zv(n[1])
            return mkint(op(b, a) if r else op(a, b))
        a, b = z3.ToReal(self.e), n[1]
        return mkreal(op(b, a) if r else op(a, b))

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if type(o) in (bytes, str) and len(o) == 1:
            if lt(self.e, 0):
                return o[:0]
            return mkseq(SymBytes if type(o) is bytes else SymStr, [("o", ConstSrc(ord(o)), 0, self.e)])
        if isinstance(o, (bytes, str, list, tuple)):
            return o * self.__index__()
        return self._ar(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e < 0, -self.e, self.e))

    def _fdiv(self, a, b):
        # Python floor division; z3 div is Euclidean
        if isinstance(b, int):
            if b == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if b > 0:
                return simp(zv(a) / b), simp(zv(a) % b)
        else:
            if cur().decide(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
            if cur().decide(b > 0):
                return simp(zv(a) / b), simp(zv(a) % b)
        q = simp(-zv(a) / -zv(b))
        return q, simp(zv(a) - zv(b) * zv(q))

    def __floordiv__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        if n[0] == "i":
            return mkint(zv(self._fdiv(self.e, n[1])[0]))
        return SymReal(z3.ToReal(self.e)) // o

    def __rfloordiv__(self, o):
        n = _num(o)
        if n is None or n[0] != "i":
            return NotImplemented
        return mkint(zv(self._fdiv(n[1], self.e)[0]))

    def __mod__(self, o):
        n = _num(o)
        if n is None or n[0] != "i":
            return NotImplemented
        return mkint(zv(self._fdiv(self.e, n[1])[1]))

    def __rmod__(self, o):
        n = _num(o)
        if n is None or n[0] != "i":
            return NotImplemented
        return mkint(zv(self._fdiv(n[1], self.e)[1]))

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        return SymReal(z3.ToReal(self.e)) / o

    def __rtruediv__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        return SymReal(real_val(o)) / self

    def _conc(name):
        def f(self, *a):
            a = [x.__index__() if isinstance(x, SymInt) else x for x in a]
            return getattr(self.__index__(), name)(*a)
        return f

    for _n in ("and", "rand", "or", "ror", "xor", "rxor", "lshift", "rlshift", "rshift", "rrshift",
               "pow", "rpow", "invert"):
        locals()["__%s__" % _n] = _conc("__%s__" % _n)
    bit_length = _conc("bit_length")
    to_bytes = lambda self, *a, **k: self.__index__().to_bytes(*a, **k)
    del _n, _conc


class SymReal(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return float

    def __bool__(self):
        return cur().decide(self.e != 0)

    def __repr__(self):
        return "<SymReal>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<SymReal>"

    def __float__(self):
        raise Unsupported("float() of a symbolic real in native code")

    def __hash__(self):
        raise Unsupported("hash of a symbolic real")

    def __int__(self):
        v = self.trunc()
        return v.__index__() if isinstance(v, SymInt) else v

    def trunc(self):
        if cur().decide(self.e >= 0):
            return mkint(z3.ToInt(self.e))
        return mkint(-z3.ToInt(-self.e))

    def __round__(self, n=None):
        if n is None:
            return mkint(z3.ToInt(self.e + z3.RealVal("1/2")))
        k = 10 ** n
        return mkreal(z3.ToReal(z3.ToInt(self.e * k + z3.RealVal("1/2"))) / k)

    def _cmp(self, o, op):
        if isinstance(o, float) and not isinstance(o, Sym) and (o != o or o in (float("inf"), float("-inf"))):
            return op(0.0, o)
        n = _num(o)
        if n is None:
            return NotImplemented
        return mkbool(op(self.e, real_val(o)))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def _ar(self, o, op, r=False):
        if _num(o) is None:
            return NotImplemented
        a, b = self.e, real_val(o)
        return mkreal(op(b, a) if r else op(a, b))

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        return self._ar(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if _num(o) is None:
            return NotImplemented
        b = real_val(o)
        if cur().decide(b == 0):
            raise ZeroDivisionError("float division by zero")
        return mkreal(self.e / b)

    def __rtruediv__(self, o):
        if _num(o) is None:
            return NotImplemented
        return SymReal(real_val(o)) / self

    def __floordiv__(self, o):
        q = self / o
        return mkreal(z3.ToReal(z3.ToInt(q.e)))

    def __mod__(self, o):
        q = self // o
        return self - q * o

    def __neg__(self):
        return mkreal(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkreal(z3.If(self.e < 0, -self.e, self.e))

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))


# ---------------------------------------------------------------- opaque sources
class Src(object):
    """Arbitrary content: an uninterpreted function from index to cell."""

    payload = None

    def __init__(self, cx, name, hi=255):
        self.name = name
        self.fn = z3.Function(name, z3.IntSort(), z3.IntSort())
        self.hi = hi
        self.seen = set()

    def cell(self, ix):
        cx = cur()
        e = self.fn(zv(ix))
        k = e.get_id()
        if k not in self.seen:
            self.seen.add(k)
            cx.keep.append(e)
            cx.add(z3.And(e >= 0, e <= self.hi))
            cx.accessed.setdefault(self.name, []).append(zv(ix))
        return e

    def restrict(self, hi):
        """All cells of this source are <= hi (adds it for those already used)."""
        if hi < self.hi:
            self.hi = hi
            cx = cur()
            cx.vars[self.name][1]["hi"] = hi
            for ix in cx.accessed.get(self.name, []):
                cx.add(self.fn(ix) <= hi)

    def value(self, model, ass, i):
        """Concrete cell i under a model (same rule as the replay)."""
        from .replay import opaque_cell
        return opaque_cell(self.name, ass[self.name], i)


class ConstSrc(Src):
    """A run of equal cells."""

    def __init__(self, c):
        self.c = c
        self.name = "const(%d)" % c
        self.hi = c

    def cell(self, ix):
        return self.c

    def restrict(self, hi):
        pass

    def value(self, model, ass, i):
        return self.c


class MappedSrc(Src):
    """Cellwise image of another source."""

    def __init__(self, base, what, f, pf):
        self.base = base
        self.name = "%s(%s)" % (what, base.name)
        self.what = what
        self.f = f
        self.pf = pf
        self.hi = base.hi

    def cell(self, ix):
        return self.f(self.base.cell(ix))

    def restrict(self, hi):
        self.base.restrict(hi)

    def value(self, model, ass, i):
        return self.pf(self.base.value(model, ass, i))


class TokSrc(Src):
    """A text whose content is a function of other values (repr, JSON, formatted reals...)."""

    selfdelim = False

    def __init__(self, cx, name, payload, compute, hi=127):
        self.name = name
        self.fn = z3.Function(name, z3.IntSort(), z3.IntSort())
        self.hi = hi
        self.seen = set()
        self.payload = payload
        self.compute = compute
        self.len = None

    def restrict(self, hi):
        pass

    def value(self, model, ass, i):
        raise Unsupported("cell of a token")


def token(cls, key, payload, compute, minlen=1, maxlen=400):
    """A token for `payload`; equal keys give the same token on a path."""
    cx = cur()
    cache = cx.st.setdefault("tokens", {})
    t = cache.get(key) if key is not None else None
    if t is None:
        n = cx.fresh("toklen")
        cx.fresh_n += 1
        t = TokSrc(cx, "tok!%d" % cx.fresh_n, payload, compute)
        cx.add(z3.And(n >= minlen, n <= maxlen))
        t.len = n
        t.selfdelim = key is not None and key[0] == "repr" and isinstance(payload, SymSeq)
        if key is not None:
            cache[key] = t
    return cls([("o", t, 0, t.len)])


def token_payload(seq):
    """The object a token stands for, if seq is exactly one whole token; otherwise None."""
    if isinstance(seq, SymSeq):
        segs = seq.segs
        if len(segs) == 1 and segs[0][0] == "o" and isinstance(segs[0][1], TokSrc):
            s = segs[0]
            if same(s[2], 0) and same(s[3], s[1].len):
                return s[1].payload
    return None


def opaque(cx, name, lo, hi, cls):
    n = z3.Int(name + ".len")
    cx.add(n >= zv(zi(lo)))
    if hi is not None:
        cx.add(n <= zv(zi(hi)))
    n_ = n
    if hi is not None and isinstance(lo, int) and isinstance(hi, int) and lo == hi:
        n_ = lo
    src = Src(cx, name, 255 if cls is SymBytes else 127)
    cx.vars[name] = ("opaque", {"len": n, "fn": src.fn, "hi": src.hi})
    return mkseq(cls, [("o", src, 0, n_)])


# ---------------------------------------------------------------- sequences
def seglen(s):
    if s[0] == "o":
        return s[3]
    return len(s[1])


class Cells(tuple):
    """Cells known to be symbolic and simplified."""
    __slots__ = ()

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return Cells(r) if isinstance(i, slice) else r


def mkseq(cls, segs):
    out = []
    nat = cls.native
    for s in segs:
        k = s[0]
        if k == "c":
            if not s[1]:
                continue
            if out and out[-1][0] == "c":
                out[-1] = ("c", out[-1][1] + s[1])
                continue
            out.append(s)
        elif k == "e":
            cells = s[1]
            if not len(cells):
                continue
            if type(cells) is Cells:
                _flush(out, cells, False, cls)
                continue
            run = []
            flags = None
            for c in cells:
                if not isinstance(c, int):
                    c = simp(c)
                isc = isinstance(c, int)
                if flags is not None and isc != flags:
                    _flush(out, run, flags, cls)
                    run = []
                flags = isc
                run.append(c)
            _flush(out, run, flags, cls)
        else:
            n = s[3]
            if isinstance(n, int) and n == 0:
                continue
            if out and out[-1][0] == "o" and out[-1][1] is s[1] and same(add(out[-1][2], out[-1][3]), s[2]):
                p = out[-1]
                out[-1] = ("o", p[1], p[2], add(p[3], n))
                continue
            out.append(s)
    if not out:
        return nat()
    if len(out) == 1 and out[0][0] == "c":
        return out[0][1]
    return cls(out)


def _flush(out, run, conc, cls):
    if conc:
        v = bytes(run) if cls is SymBytes else "".join(chr(x) for x in run)
        if out and out[-1][0] == "c":
            out[-1] = ("c", out[-1][1] + v)
        else:
            out.append(("c", v))
    else:
        if out and out[-1][0] == "e":
            out[-1] = ("e", Cells(tuple(out[-1][1]) + tuple(run)))
        else:
            out.append(("e", run if type(run) is Cells else Cells(run)))


def _seg_in(hay, nd):
    """Is the needle, segment by segment, in plain sight?  (False: not known)"""
    if not any(x[0] == "o" for x in nd):
        return False
    n = len(nd)
    for i in range(len(hay) - n + 1):
        for j in range(n):
            a, b = hay[i + j], nd[j]
            if a[0] != b[0]:
                break
            if a[0] == "o":
                if not (a[1] is b[1] and same(a[2], b[2]) and same(a[3], b[3])):
                    break
            elif a[0] == "c":
                if n == 1:
                    ok = b[1] in a[1]
                elif j == 0:
                    ok = a[1].endswith(b[1])
                elif j == n - 1:
                    ok = a[1].startswith(b[1])
                else:
                    ok = a[1] == b[1]
                if not ok:
                    break
            else:
                break
        else:
            return True
    return False


def segs_of(x):
    if isinstance(x, SymSeq):
        return x.segs
    return [("c", x)] if len(x) else []


def is_seq(x):
    return isinstance(x, SymSeq)


def lencalc(x):
    if isinstance(x, SymSeq):
        return x.length()
    return len(x)


def cut(segs, k):
    """Split at position k (0 <= k <= length, already ensured)."""
    left = []
    i = 0
    segs = list(segs)
    while i < len(segs):
        s = segs[i]
        n = seglen(s)
        if isinstance(k, int) and k == 0:
            break
        if same(n, k) or le(n, k):
            left.append(s)
            k = sub(k, n)
            i += 1
            continue
        # 0 <= k < n
        if s[0] == "o":
            left.append(("o", s[1], s[2], k))
            segs[i] = ("o", s[1], add(s[2], k), sub(n, k))
        else:
            if not isinstance(k, int):
                k = cur().concretize(k)
            left.append((s[0], s[1][:k]))
            segs[i] = (s[0], s[1][k:])
        break
    return left, segs[i:]


def cellvals(s):
    """Cells of a 'c' or 'e' segment."""
    if s[0] == "c":
        v = s[1]
        return [ord(c) for c in v] if isinstance(v, str) else list(v)
    return list(s[1])


def cell_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return True
    return zv(a) == zv(b)


def repr_token(s):
    """The payload of a segment that is the whole repr of a byte string or text, or None."""
    if s[0] == "o" and type(s[1]) is TokSrc and s[1].selfdelim and same(s[2], 0) and same(s[3], s[1].len):
        return s[1].payload
    return None


def tokens_eq(a, b):
    """Texts made of the same constants around reprs: equal exactly if what is represented is equal, since no repr is a
    proper beginning of another.  -> bool, z3 Bool or None (does not apply)"""
    A, B = segs_of(a), segs_of(b)
    if len(A) != len(B):
        return None
    pairs = []
    for x, y in zip(A, B):
        if x[0] == "c" and y[0] == "c":
            if x[1] != y[1]:
                return None
            continue
        p, q = repr_token(x), repr_token(y)
        if p is None or q is None:
            return None
        pairs.append((p, q))
    if not pairs:
        return None
    out = []
    for p, q in pairs:
        if issubclass(type(p), SymBytes) != issubclass(type(q), SymBytes):
            return False
        e = seq_eq(p, q)
        if e is False:
            return False
        if e is not True:
            out.append(e)
    return conj(out)


def seq_eq(a, b):
    """-> bool or z3 Bool"""
    if issubclass(type(a), SymStr) and issubclass(type(b), SymStr):
        r = tokens_eq(a, b)
        if r is not None:
            return r
    la, lb = lencalc(a), lencalc(b)
    if not eqd(la, lb):
        return False
    A, B = list(segs_of(a)), list(segs_of(b))
    out = []
    while A and B:
        x, y = A[0], B[0]
        lx, ly = seglen(x), seglen(y)
        if isinstance(lx, int) and isinstance(ly, int):
            n = min(lx, ly)
        elif same(lx, ly):
            n = lx
        elif eqd(lx, ly):
            n = lx
        elif lt(lx, ly):
            n = lx
        else:
            n = ly
        x1, A = cut(A, n)
        y1, B = cut(B, n)
        if not x1 or not y1:
            continue
        x, y = x1[0], y1[0]
        if x[0] == "o" and y[0] == "o":
            if x[1] is y[1] or x[1].name == y[1].name:
                if type(x[1]) is ConstSrc or same(x[2], y[2]) or cur().decide(z3.Or(zv(n) <= 0, zv(x[2]) == zv(y[2]))):
                    continue
            if isinstance(n, int) and n <= 64:
                for i in range(n):
                    out.append(cell_eq(x[1].cell(add(x[2], i)), y[1].cell(add(y[2], i))))
                continue
            # arbitrary contents of symbolic length: either they differ somewhere or are equal everywhere
            cx = cur()
            if eqd(n, 0):
                continue
            cx.fresh_n += 1
            b_ = z3.Bool("differ!%d" % cx.fresh_n)
            if cx.decide(b_):
                k = cx.fresh("at")
                cx.add(z3.And(k >= 0, k < zv(n)))
                cx.add(x[1].cell(zv(x[2]) + k) != y[1].cell(zv(y[2]) + k))
                return False
            k = z3.Int("k!q")
            if type(x[1]) is Src and type(y[1]) is Src:
                cx.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zv(n)),
                                                 x[1].fn(zv(x[2]) + k) == y[1].fn(zv(y[2]) + k))))
                cx.alike.append((x[1].name, zv(x[2]), y[1].name, zv(y[2]), zv(n)))
            else:
                cx.note_concretized("equality of mapped opaque contents")
            continue
        if not isinstance(n, int):
            n = cur().concretize(n)
        ca = [x[1].cell(add(x[2], i)) for i in range(n)] if x[0] == "o" else cellvals(x)
        cb = [y[1].cell(add(y[2], i)) for i in range(n)] if y[0] == "o" else cellvals(y)
        for p, q in zip(ca, cb):
            e = cell_eq(p, q)
            if e is False:
                return False
            if e is not True:
                e = z3.simplify(e)
                if z3.is_false(e):
                    return False
                if z3.is_true(e):
                    continue
                out.append(e)
    return conj(out)


WS_BYTES = (9, 10, 11, 12, 13, 32)
WS_STR = (9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 0x85, 0xA0, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004,
          0x2005, 0x2006, 0x2007, 0x2008, 0x2009, 0x200A, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000)


def in_set(c, vals):
    """z3/py bool: cell c is one of vals"""
    if isinstance(c, int):
        return c in vals
    # ranges
    vs = sorted(vals)
    parts = []
    i = 0
    while i < len(vs):
        j = i
        while j + 1 < len(vs) and vs[j + 1] == vs[j] + 1:
            j += 1
        if j == i:
            parts.append(c == vs[i])
        else:
            parts.append(z3.And(c >= vs[i], c <= vs[j]))
        i = j + 1
    return z3.Or(parts) if len(parts) > 1 else (parts[0] if parts else False)


def rng(c, lo, hi):
    if isinstance(c, int):
        return lo <= c <= hi
    return z3.And(c >= lo, c <= hi)


def D(e):
    """decide a py/z3 bool"""
    if isinstance(e, bool):
        return e
    return cur().decide(e)


class SymSeq(Sym):
    __slots__ = ("segs", "_len", "_repr")
    native = None

    def __init__(self, segs):
        self.segs = list(segs)
        self._len = None
        self._repr = None

    @property
    def __class__(self):
        return self.native

    def length(self):
        if self._len is None:
            n = 0
            for s in self.segs:
                n = add(n, seglen(s))
            self._len = n
        return self._len

    def __len__(self):
        n = self.length()
        return n if isinstance(n, int) else cur().concretize(n)

    def __bool__(self):
        n = self.length()
        if isinstance(n, int):
            return n > 0
        return cur().decide(n > 0)

    def __hash__(self):
        return hash(self.concrete())

    def __repr__(self):
        return "<%s>" % self.native.__name__

    __str__ = __repr__

    def __format__(self, spec):
        return "<%s>" % self.native.__name__

    def mk(self, segs):
        return mkseq(type(self), segs)

    def lift(self, o, what="operand"):
        if isinstance(o, SymSeq) and type(o) is type(self):
            return o
        if getattr(type(o), "_sx_bytes", False):
            o = o.v
        if isinstance(o, self.native):
            return o
        if self.native is bytes and isinstance(o, (bytearray, memoryview)):
            return bytes(o)
        raise TypeError("a %s-like object is required, not '%s'" % (self.native.__name__, o.__class__.__name__))

    # --- content
    def cells(self, limit=64):
        """All cells (forks over symbolic lengths)."""
        out = []
        for s in self.segs:
            if s[0] == "o":
                n = s[3]
                if not isinstance(n, int):
                    n = cur().concretize(n, limit=limit, what="length of opaque content")
                out.extend(s[1].cell(add(s[2], i)) for i in range(n))
            else:
                out.extend(cellvals(s))
        return [simp(c) if not isinstance(c, int) else c for c in out]

    def concrete(self):
        cells = [c if isinstance(c, int) else cur().concretize(c, limit=16) for c in self.cells()]
        return bytes(cells) if self.native is bytes else "".join(map(chr, cells))

    def __iter__(self):
        for c in self.cells():
            if self.native is bytes:
                yield c if isinstance(c, int) else SymInt(c)
            else:
                yield chr(c) if isinstance(c, int) else self.mk([("e", (c,))])

    def __reversed__(self):
        return iter(list(self)[::-1])

    # --- comparison
    def __eq__(self, o):
        if getattr(type(o), "_sx_bytes", False):
            o = o.v
        if isinstance(o, SymSeq):
            if type(o) is not type(self):
                return False
        elif isinstance(o, bytearray) and self.native is bytes:
            o = bytes(o)
        elif not isinstance(o, self.native):
            return NotImplemented
        return mkbool(seq_eq(self, o))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else neg(r)

    def _order(self, o, strict):
        o = self.lift(o)
        a = self.cells()
        b = o.cells() if isinstance(o, SymSeq) else cellvals(("c", o))
        # self < o
        e = z3.BoolVal(len(a) < len(b)) if strict else z3.BoolVal(len(a) <= len(b))
        for i in range(min(len(a), len(b)) - 1, -1, -1):
            x, y = zv(a[i]), zv(b[i])
            e = z3.If(x == y, e, x < y)
        return mkbool(e)

    def __lt__(self, o):
        return self._order(o, True)

    def __le__(self, o):
        return self._order(o, False)

    def __gt__(self, o):
        return neg(self._order(o, False))

    def __ge__(self, o):
        return neg(self._order(o, True))

    # --- structure
    def __add__(self, o):
        if getattr(type(o), "_sx_bytes", False):
            o = o.v
        if isinstance(o, SymSeq):
            if type(o) is not type(self):
                raise TypeError("can't concat %s to %s" % (o.native.__name__, self.native.__name__))
        elif not isinstance(o, self.native) and not (self.native is bytes and isinstance(o, (bytearray, memoryview))):
            return NotImplemented
        else:
            o = self.lift(o)
        return self.mk(self.segs + list(segs_of(o)))

    def __radd__(self, o):
        if not isinstance(o, self.native):
            return NotImplemented
        return self.mk(list(segs_of(o)) + self.segs)

    def __mul__(self, n):
        n = n.__index__()
        return self.mk(self.segs * max(0, n))

    __rmul__ = __mul__

    def __mod__(self, args):
        from . import ops
        return ops.mod(self.concrete(), args)

    def _clamp(self, i, default):
        n = self.length()
        if i is None:
            return default
        i = zi(i) if isinstance(i, (Sym, int)) else i.__index__()
        if lt(i, 0):
            i = add(i, n)
            if lt(i, 0):
                return 0
        if same(i, n) or le(n, i):
            return n
        return i

    def __getitem__(self, ix):
        if isinstance(ix, slice):
            step = ix.step
            if step is not None and not (isinstance(step, int) and step == 1):
                lst = list(self.cells())[ix.start:ix.stop:step]
                return self.mk([("e", tuple(lst))])
            a = self._clamp(ix.start, 0)
            b = self._clamp(ix.stop, self.length())
            if same(a, b) or le(b, a):
                return self.native()
            _l, r = cut(self.segs, a)
            m, _r = cut(r, sub(b, a))
            return self.mk(m)
        i = zi(ix)
        n = self.length()
        if lt(i, 0):
            i = add(i, n)
        if lt(i, 0) or le(n, i):
            raise IndexError("index out of range")
        _l, r = cut(self.segs, i)
        # skip empty segments
        for s in r:
            sn = seglen(s)
            if isinstance(sn, int) or not eqd(sn, 0):
                c = s[1].cell(s[2]) if s[0] == "o" else cellvals(s)[0]
                break
        if self.native is bytes:
            return c if isinstance(c, int) else mkint(c)
        return chr(c) if isinstance(c, int) else self.mk([("e", (c,))])

    # --- searching
    def _arg(self, o):
        if self.native is bytes and isinstance(o, (int, SymInt)) and not isinstance(o, SymSeq):
            return self.mk([("e", (zi(o),))])
        return self.lift(o)

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(bool(self.startswith(q, start, end)) for q in p)
        p = self.lift(p)
        s = self if (start == 0 and end is None) else lift(self[start:end])
        n = lencalc(p)
        if not le(n, lencalc(s)):
            return False
        return mkbool(seq_eq(s[:mkint(zv(n))], p))

    def endswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return any(bool(self.endswith(q, start, end)) for q in p)
        p = self.lift(p)
        s = self if (start == 0 and end is None) else lift(self[start:end])
        n, m = lencalc(p), lencalc(s)
        if not le(n, m):
            return False
        return mkbool(seq_eq(s[mkint(zv(sub(m, n))):], p))

    def removeprefix(self, p):
        if self.startswith(p):
            return self[mkint(zv(lencalc(p))):]
        return self

    def removesuffix(self, p):
        if lencalc(p) != 0 and self.endswith(p):
            return self[:mkint(zv(sub(self.length(), lencalc(p))))]
        return self

    def _find(self, needle, start=0, end=None, rev=False):
        """position or -1, over cells (forks)"""
        needle = self._arg(needle)
        hay = self.cells()
        nd = needle.cells() if isinstance(needle, SymSeq) else cellvals(("c", needle))
        n = len(hay)
        start, end, _ = slice(_ix(start), _ix(end)).indices(n)
        order = range(start, end - len(nd) + 1)
        if rev:
            order = reversed(order)
        for i in order:
            if D(conj([cell_eq(hay[i + j], nd[j]) for j in range(len(nd))])):
                return i
        return -1

    def find(self, s, start=0, end=None):
        return self._find(s, start, end)

    def rfind(self, s, start=0, end=None):
        return self._find(s, start, end, True)

    def index(self, s, start=0, end=None):
        r = self._find(s, start, end)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def rindex(self, s, start=0, end=None):
        r = self._find(s, start, end, True)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def count(self, s, start=0, end=None):
        n, pos = 0, start
        k = max(1, len(s))
        while True:
            i = self._find(s, pos, end)
            if i < 0:
                return n
            n += 1
            pos = i + k

    def __contains__(self, o):
        # one formula rather than one branch per position
        needle = self._arg(o)
        if isinstance(needle, SymSeq) and _seg_in(self.segs, needle.segs):
            return True
        hay = self.cells()
        nd = needle.cells() if isinstance(needle, SymSeq) else cellvals(("c", needle))
        alts = []
        for i in range(0, len(hay) - len(nd) + 1):
            e = conj([cell_eq(hay[i + j], nd[j]) for j in range(len(nd))])
            if e is True:
                return True
            if e is not False:
                alts.append(be(e))
        if not alts:
            return False
        return D(z3.Or(alts))

    def partition(self, sep):
        i = self._find(sep)
        if i < 0:
            return (self, self.native(), self.native())
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self._find(sep, rev=True)
        if i < 0:
            return (self.native(), self.native(), self)
        return (self[:i], sep, self[i + len(sep):])

    def _ws(self):
        return WS_BYTES if self.native is bytes else WS_STR

    def split(self, sep=None, maxsplit=-1):
        cells = self.cells()
        full = self.mk([("e", tuple(cells))])
        out = []
        maxsplit = _ix(maxsplit)
        if sep is None:
            ws = self._ws()
            i, n = 0, len(cells)
            while True:
                while i < n and D(in_set(cells[i], ws)):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and D(in_set(cells[j - 1], ws)):
                        j -= 1
                    out.append(full[i:j])
                    break
                j = i
                while j < n and not D(in_set(cells[j], ws)):
                    j += 1
                out.append(full[i:j])
                i = j
            return out
        k = len(sep)
        if k == 0:
            raise ValueError("empty separator")
        f = lift(full)
        i = 0
        while maxsplit < 0 or len(out) < maxsplit:
            j = f._find(sep, i)
            if j < 0:
                break
            out.append(full[i:j])
            i = j + k
        out.append(full[i:])
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit == -1:
            if maxsplit == -1:
                return self.split(sep)
            raise Unsupported("rsplit")
        out = []
        cur_ = self
        while len(out) < maxsplit:
            i = lift(cur_)._find(sep, rev=True)
            if i < 0:
                break
            out.insert(0, cur_[i + len(sep):])
            cur_ = cur_[:i]
        out.insert(0, cur_)
        return out

    def splitlines(self, keepends=False):
        cells = self.cells()
        full = self.mk([("e", tuple(cells))])
        brk = (10, 13) if self.native is bytes else (10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029)
        out, i, n = [], 0, len(cells)
        while i < n:
            j = i
            while j < n and not D(in_set(cells[j], brk)):
                j += 1
            e = j
            if j < n:
                if D(cell_eq(cells[j], 13)) and j + 1 < n and D(cell_eq(cells[j + 1], 10)):
                    j += 1
                j += 1
            out.append(full[i:j] if keepends else full[i:e])
            i = j
        return out

    def _strip(self, chars, left, right):
        if not self.segs:
            return self
        if chars is None:
            vals = self._ws()
            test = lambda c: in_set(c, vals)
        else:
            cc = chars.cells() if isinstance(chars, SymSeq) else cellvals(("c", chars))
            def test(c):
                es = [cell_eq(c, v) for v in cc]
                if any(e is True for e in es):
                    return True
                es = [be(e) for e in es if e is not False]
                return z3.Or(es) if es else False
        segs = self.segs
        # only the ends are examined cell by cell
        s = self
        if left:
            while True:
                n = lencalc(s)
                if isinstance(n, int) and n == 0:
                    return s
                if not isinstance(n, int) and not cur().decide(n > 0):
                    return self.native()
                s = lift(s)
                h = s._cell_at(0)
                if not D(test(h)):
                    break
                s = s[1:]
                cur().step()
        if right:
            while True:
                n = lencalc(s)
                if isinstance(n, int) and n == 0:
                    return s
                if not isinstance(n, int) and not cur().decide(n > 0):
                    return self.native()
                s = lift(s)
                h = s._cell_at(mkint(zv(sub(n, 1))))
                if not D(test(h)):
                    break
                s = s[:mkint(zv(sub(n, 1)))]
                cur().step()
        return s.mk(s.segs) if isinstance(s, SymSeq) else s

    def _cell_at(self, i):
        c = self[i]
        if isinstance(c, str):
            return lift(c).cells()[0]
        return zi(c)

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def replace(self, old, new, count=-1):
        old = self.lift(old)
        new = self.lift(new)
        k = len(old)
        if k == 0:
            raise Unsupported("replace of the empty string")
        f = self.mk([("e", tuple(self.cells()))])
        f = lift(f)
        segs, i, n = [], 0, 0
        while count < 0 or n < count:
            j = f._find(old, i)
            if j < 0:
                break
            segs += segs_of(f[i:j]) + segs_of(new)
            i = j + k
            n += 1
        segs += segs_of(f[i:])
        return self.mk(segs)

    def translate(self, table, delete=b""):
        raise Unsupported("translate")

    def join(self, items):
        items = list(items)
        segs = []
        for i, it in enumerate(items):
            if i:
                segs += self.segs
            it = self.lift(it)
            segs += segs_of(it)
        return self.mk(segs)

    def _map(self, what, f, pf):
        segs = []
        for s in self.segs:
            if s[0] == "o":
                cache = cur().st.setdefault("mapped", {})
                key = (s[1].name, what)
                m = cache.get(key)
                if m is None:
                    m = cache[key] = MappedSrc(s[1], what, f, pf)
                segs.append(("o", m, s[2], s[3]))
            else:
                segs.append(("e", tuple(pf(c) if isinstance(c, int) else f(c) for c in cellvals(s))))
        return self.mk(segs)

    def lower(self):
        self._ascii_note()
        return self._map("lower", lambda c: z3.If(z3.And(c >= 65, c <= 90), c + 32, c),
                         lambda c: c + 32 if 65 <= c <= 90 else c)

    casefold = lower

    def upper(self):
        self._ascii_note()
        return self._map("upper", lambda c: z3.If(z3.And(c >= 97, c <= 122), c - 32, c),
                         lambda c: c - 32 if 97 <= c <= 122 else c)

    def _ascii_note(self):
        if self.native is str:
            cur().ex.stats.assumptions.add("case mapping and character classes of text follow ASCII")

    def _all(self, f):
        self._ascii_note()
        cells = self.cells()
        if not cells:
            return False
        return mkbool(conj([f(c) for c in cells]))

    def isdigit(self):
        return self._all(lambda c: rng(c, 48, 57))

    isdecimal = isnumeric = isdigit

    def isspace(self):
        return self._all(lambda c: in_set(c, self._ws()))

    def isalpha(self):
        return self._all(lambda c: z3.Or(be(rng(c, 65, 90)), be(rng(c, 97, 122))))

    def isalnum(self):
        return self._all(lambda c: z3.Or(be(rng(c, 48, 57)), be(rng(c, 65, 90)), be(rng(c, 97, 122))))

    def isascii(self):
        cells = self.cells()
        return mkbool(conj([rng(c, 0, 127) for c in cells]))

    def isprintable(self):
        if not len(self):
            return True
        return self._all(lambda c: z3.Or(be(rng(c, 32, 126)), z3.And(be(rng(c, 161, 1114111)), be(c != 173))))

    def swapcase(self):
        self._ascii_note()
        return self._map("swapcase", lambda c: z3.If(z3.And(c >= 97, c <= 122), c - 32,
                                                     z3.If(z3.And(c >= 65, c <= 90), c + 32, c)),
                         lambda c: c - 32 if 97 <= c <= 122 else (c + 32 if 65 <= c <= 90 else c))

    def capitalize(self):
        return self[:1].upper() + self[1:].lower()

    def center(self, w, ch=None):
        ch = ch if ch is not None else (" " if self.native is str else b" ")
        n = len(self)
        if w <= n:
            return self
        left = (w - n) // 2 + ((w - n) & w & 1)
        return self.mk([("c", ch * left)] + self.segs + [("c", ch * (w - n - left))])

    def isupper(self):
        return mkbool(z3.And(be(seq_eq(self, self.upper())), z3.Not(be(seq_eq(self, self.lower())))))

    def islower(self):
        return mkbool(z3.And(be(seq_eq(self, self.lower())), z3.Not(be(seq_eq(self, self.upper())))))

    def zfill(self, w):
        return self.rjust(w, "0" if self.native is str else b"0")

    def rjust(self, w, ch=None):
        ch = ch if ch is not None else (" " if self.native is str else b" ")
        n = len(self)
        return self.mk([("c", ch * max(0, w - n))] + self.segs)

    def ljust(self, w, ch=None):
        ch = ch if ch is not None else (" " if self.native is str else b" ")
        n = len(self)
        return self.mk(self.segs + [("c", ch * max(0, w - n))])

    def expandtabs(self, *a):
        raise Unsupported("expandtabs")

    def to_int(self, base=10):
        if base != 10:
            return int(self.concrete(), base)
        cells = self.cells()
        bad = ValueError("invalid literal for int() with base 10")
        ws = self._ws()
        i, n = 0, len(cells)
        while i < n and D(in_set(cells[i], ws)):
            i += 1
        while n > i and D(in_set(cells[n - 1], ws)):
            n -= 1
        if i >= n:
            raise bad
        sign = 1
        if D(cell_eq(cells[i], 45)):
            sign = -1
            i += 1
        elif D(cell_eq(cells[i], 43)):
            i += 1
        if i >= n:
            raise bad
        val = 0
        last_us = True
        cnt = 0
        while i < n:
            c = cells[i]
            if D(rng(c, 48, 57)):
                d = c - 48
                if isinstance(val, int) and isinstance(d, int):
                    val = val * 10 + d
                else:
                    val = zv(val) * 10 + zv(d)
                last_us = False
                cnt += 1
            elif not last_us and D(cell_eq(c, 95)):
                last_us = True
            else:
                raise bad
            i += 1
        if last_us:
            raise bad
        if cnt > 4300:
            raise ValueError("Exceeds the limit for integer string conversion")
        if isinstance(val, int):
            return sign * val
        return mkint(sign * val)


def _ix(x):
    if x is None or isinstance(x, int) and not isinstance(x, Sym):
        return x
    return x.__index__()


def lift(x):
    """native bytes/str -> SymSeq (possibly all concrete)"""
    if getattr(type(x), "_sx_bytes", False):
        x = x.v
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, (bytes, bytearray)):
        return SymBytes([("c", bytes(x))] if x else [])
    if isinstance(x, str):
        return SymStr([("c", x)] if x else [])
    raise Unsupported("lift %r" % type(x))


def _utf8_err(start):
    return UnicodeDecodeError("utf-8", b"\xff" * (start + 1), start, start + 1, "invalid start byte")


class SymBytes(SymSeq):
    __slots__ = ()
    native = bytes

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        out = []
        if enc in ("latin-1", "iso-8859-1", "latin1"):
            return mkseq(SymStr, [_retype(s) for s in self.segs])
        if enc in ("utf-8-sig", "utf-8sig"):
            s = self
            if s.startswith(b"\xef\xbb\xbf"):
                s = s[3:]
            return s.decode("utf-8", errors)
        if enc not in ("utf-8", "utf8", "ascii", "us-ascii"):
            raise Unsupported("decode %s" % encoding)
        ascii_only = "ascii" in enc
        # runs of cells are decoded together, opaque parts are ASCII or invalid
        run = []
        pos = 0

        def flush():
            if run:
                out.append(("e", tuple(_utf8_decode(run, errors, ascii_only))))
                del run[:]

        for s in self.segs:
            if s[0] != "o":
                run.extend(cellvals(s))
                continue
            if isinstance(s[3], int) and s[3] <= 64 and not isinstance(s[1], (TokSrc, MappedSrc)):
                run.extend(s[1].cell(add(s[2], i)) for i in range(s[3]))
                continue
            flush()
            cx = cur()
            if not isinstance(s[1], TokSrc) and s[1].hi > 127:
                cx.ex.stats.assumptions.add("long opaque byte strings that are decoded as text are ASCII or "
                                            "contain the byte 0xff (undecodable)")
                b = z3.Bool("ascii!%s" % s[1].name)
                if cx.decide(z3.Or(b, zv(s[3]) == 0)):
                    s[1].restrict(127)
                else:
                    k = cx.fresh("badbyte")
                    cx.add(z3.And(k >= 0, k < zv(s[3])))
                    cx.add(s[1].cell(add(s[2], k)) == 255)
                    if errors == "strict":
                        raise _utf8_err(0)
                    raise Unsupported("lossy decode of opaque content")
            out.append(s)
        flush()
        return mkseq(SymStr, out)

    def hex(self, *a):
        return self.concrete().hex(*a)

    def tobytes(self):
        return self


def _retype(s):
    if s[0] == "c":
        return ("c", s[1].decode("latin-1"))
    return s


def _utf8_decode(cells, errors, ascii_only=False):
    out = []
    i, n = 0, len(cells)

    def bad(start, end):
        if errors == "strict":
            raise UnicodeDecodeError("ascii" if ascii_only else "utf-8", b"\xff" * max(n, end), start, end,
                                     "invalid byte")
        if errors == "ignore":
            return
        if errors == "replace":
            out.append(0xFFFD)
            return
        raise Unsupported("decode errors=%s" % errors)

    while i < n:
        c = cells[i]
        if D(rng(c, 0, 127)):
            out.append(c)
            i += 1
            continue
        if ascii_only:
            bad(i, i + 1)
            i += 1
            continue
        if D(rng(c, 0xC2, 0xDF)):
            need, lo, hi = 1, 0x80, 0xBF
            base = zv(c) - 0xC0
        elif D(rng(c, 0xE0, 0xEF)):
            need = 2
            lo = 0xA0 if D(cell_eq(c, 0xE0)) else 0x80
            hi = 0x9F if D(cell_eq(c, 0xED)) else 0xBF
            base = zv(c) - 0xE0
        elif D(rng(c, 0xF0, 0xF4)):
            need = 3
            lo = 0x90 if D(cell_eq(c, 0xF0)) else 0x80
            hi = 0x8F if D(cell_eq(c, 0xF4)) else 0xBF
            base = zv(c) - 0xF0
        else:
            bad(i, i + 1)
            i += 1
            continue
        j = 1
        ok = True
        while j <= need:
            if i + j >= n or not D(rng(cells[i + j], lo, hi)):
                ok = False
                break
            base = base * 64 + (zv(cells[i + j]) - 0x80)
            lo, hi = 0x80, 0xBF
            j += 1
        if not ok:
            bad(i, i + j)
            i += j
            continue
        out.append(simp(base))
        i += need + 1
    return out


class SymStr(SymSeq):
    __slots__ = ()
    native = str

    def encode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        if enc not in ("utf-8", "utf8", "ascii", "us-ascii", "latin-1"):
            raise Unsupported("encode %s" % encoding)
        out = []
        for s in self.segs:
            if s[0] == "o":
                out.append(s)     # opaque text is ASCII
                continue
            if s[0] == "c":
                out.append(("c", s[1].encode(encoding, errors)))
                continue
            cs = []
            for c in s[1]:
                if D(rng(c, 0, 127)):
                    cs.append(c)
                elif enc not in ("utf-8", "utf8"):
                    if enc == "latin-1" and D(rng(c, 0, 255)):
                        cs.append(c)
                    elif errors == "strict":
                        raise UnicodeEncodeError(enc, "\u1234", 0, 1, "ordinal not in range")
                    elif errors == "replace":
                        cs.append(63)
                elif D(rng(c, 0x80, 0x7FF)):
                    cs += [0xC0 + zv(c) / 64, 0x80 + zv(c) % 64]
                elif D(rng(c, 0x800, 0xFFFF)):
                    if D(rng(c, 0xD800, 0xDFFF)):
                        if errors == "strict":
                            raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
                        if errors == "replace":
                            cs.append(63)
                        continue
                    cs += [0xE0 + zv(c) / 4096, 0x80 + (zv(c) / 64) % 64, 0x80 + zv(c) % 64]
                else:
                    cs += [0xF0 + zv(c) / 262144, 0x80 + (zv(c) / 4096) % 64, 0x80 + (zv(c) / 64) % 64,
                           0x80 + zv(c) % 64]
            out.append(("e", tuple(cs)))
        return mkseq(SymBytes, out)

    def format(self, *a, **k):
        from . import ops
        return ops.str_format(self.concrete(), *a, **k)

    def isidentifier(self):
        return self.concrete().isidentifier()


# ---------------------------------------------------------------- numerals
MAX_DIGITS = 40


def int_to_str(x, cls=None):
    """Decimal numeral of a SymInt (forks over sign and number of digits)."""
    cls = cls or SymStr
    e = x.e
    cx = cur()
    key = e.get_id()
    cells = cx.digit_cache.get(key)
    if cells is None:
        cx.keep.append(e)
        if cx.decide(e < 0):
            sign, m = [45], simp(-e)
        else:
            sign, m = [], e
        k = 1
        while k < MAX_DIGITS and not cx.decide(zv(m) < 10 ** k):
            k += 1
        if k >= MAX_DIGITS:
            cx.note_concretized("integers of more than %d digits" % MAX_DIGITS)
        if k == 1:
            cells = sign + [simp(zv(m) + 48)]
        else:
            ds = [cx.fresh("d") for _ in range(k)]
            for i, d in enumerate(ds):
                cx.add(z3.And(d >= (1 if i == 0 else 0), d <= 9))
            total = 0
            for d in ds:
                total = total * 10 + d
            cx.add(zv(m) == z3.simplify(total))
            cells = sign + [d + 48 for d in ds]
        cx.digit_cache[key] = cells
    return mkseq(cls, [("e", tuple(cells))])


# ---------------------------------------------------------------- helpers on structures
def is_sym(x):
    return isinstance(type(x), type) and issubclass(type(x), Sym)


def has_sym(x, depth=4):
    t = type(x)
    if issubclass(t, Sym):
        return True
    if depth <= 0:
        return False
    if t in (list, tuple, set, frozenset) or issubclass(t, (list, tuple)):
        for y in x:
            if has_sym(y, depth - 1):
                return True
    elif issubclass(t, dict):
        for k, v in dict.items(x):
            if has_sym(k, depth - 1) or has_sym(v, depth - 1) or type(k).__name__ == "SymKey":
                return True
    return False


def key_of(x):
    """A hashable structural key of a value (same key -> same content)."""
    t = type(x)
    if t is SymBool or t is SymInt or t is SymReal:
        cur().keep.append(x.e)
        return (t.__name__, z3.simplify(x.e).get_id() if False else x.e.get_id())
    if issubclass(t, SymSeq):
        out = [t.__name__]
        for s in x.segs:
            if s[0] == "c":
                out.append(s[1])
            elif s[0] == "e":
                for c in s[1]:
                    if isinstance(c, int):
                        out.append(c)
                    else:
                        cur().keep.append(c)
                        out.append(("z", c.get_id()))
            else:
                k = []
                for v in (s[2], s[3]):
                    if isinstance(v, int):
                        k.append(v)
                    else:
                        cur().keep.append(v)
                        k.append(("z", v.get_id()))
                out.append((s[1].name, tuple(k)))
        return tuple(out)
    if issubclass(t, (list, tuple)):
        return (t.__name__,) + tuple(key_of(y) for y in x)
    if issubclass(t, dict):
        return (t.__name__,) + tuple((key_of(k), key_of(v)) for k, v in x.items())
    try:
        hash(x)
        return (t.__name__, x)
    except TypeError:
        return (t.__name__, id(x))


def evaluate(v, model, ass):
    """Concrete value of v under a model."""
    t = type(v)
    if t is SymInt:
        return model.eval(v.e, model_completion=True).as_long()
    if t is SymBool:
        return bool(z3.is_true(model.eval(v.e, model_completion=True)))
    if t is SymReal:
        r = model.eval(v.e, model_completion=True)
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    if issubclass(t, SymSeq):
        def iv(e):
            return e if isinstance(e, int) else model.eval(e, model_completion=True).as_long()
        parts = []
        for s in v.segs:
            if s[0] == "c":
                parts.append(s[1])
            elif s[0] == "e":
                cs = [iv(c) for c in s[1]]
                parts.append(bytes(cs) if t is SymBytes else "".join(map(chr, cs)))
            elif isinstance(s[1], TokSrc):
                full = s[1].compute(lambda w: evaluate(w, model, ass))
                if s[3] is not s[1].len and not same(s[3], s[1].len):
                    return ("<part of token>",)
                if t is SymBytes and isinstance(full, str):
                    full = full.encode("utf-8")
                elif t is SymStr and isinstance(full, bytes):
                    full = full.decode("utf-8")
                parts.append(full)
            else:
                a, n = iv(s[2]), iv(s[3])
                cs = [s[1].value(model, ass, a + i) for i in range(n)]
                parts.append(bytes(cs) if t is SymBytes else "".join(map(chr, cs)))
        return (b"" if t is SymBytes else "").join(parts)
    if issubclass(t, dict):
        return {evaluate(k, model, ass): evaluate(x, model, ass) for k, x in v.items()}
    if issubclass(t, tuple):
        return tuple(evaluate(x, model, ass) for x in v)
    if issubclass(t, list):
        return [evaluate(x, model, ass) for x in v]
    return v
