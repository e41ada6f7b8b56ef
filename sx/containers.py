"""dict / set replacements that accept symbolic keys (equality decided by the solver)."""
from .values import Sym, SymSeq, SymInt, SymBool, has_sym, seq_eq, D


class SymKey(object):
    """Stands for a symbolic key in the native storage."""
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return "SymKey(%r)" % (self.k,)


def symbolic_key(k):
    t = type(k)
    if issubclass(t, Sym):
        return True
    if t is tuple:
        return has_sym(k)
    return False


def _unwrap(k):
    return k.k if type(k) is SymKey else k


def _keq(a, b):
    """Do two keys compare equal? (decides)"""
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not _keq(x, y):
                return False
        return True
    if isinstance(a, (bytes, str)) or isinstance(b, (bytes, str)):
        if isinstance(a, bytes) != isinstance(b, bytes) or isinstance(a, str) != isinstance(b, str):
            return False
    r = (a == b)
    return bool(r)




class SxDict(dict):
    # native storage; symbolic keys are wrapped in SymKey

    def __init__(self, *a, **k):
        dict.__init__(self)
        self.__dict__["nsym"] = 0
        if len(a) > 1:
            raise TypeError("dict expected at most 1 argument, got %d" % len(a))
        if a:
            self.update(a[0])
        if k:
            self.update(k)

    def __new__(cls, *a, **k):
        o = dict.__new__(cls)
        o.__dict__["nsym"] = 0
        return o

    def _raw(self):
        return dict.keys(self)

    def _locate(self, k):
        if symbolic_key(k):
            for s in list(dict.keys(self)):
                if type(s) is SymKey and s.k is k:
                    return True, s
            for s in list(dict.keys(self)):
                if _keq(_unwrap(s), k):
                    return True, s
            return False, SymKey(k)
        if dict.__contains__(self, k):
            return True, k
        if self.__dict__["nsym"]:
            for s in list(dict.keys(self)):
                if type(s) is SymKey and _keq(s.k, k):
                    return True, s
        return False, k

    def __getitem__(self, k):
        f, s = self._locate(k)
        if f:
            return dict.__getitem__(self, s)
        m = getattr(type(self), "__missing__", None)
        if m is not None:
            return m(self, k)
        raise KeyError(k)

    def __setitem__(self, k, v):
        f, s = self._locate(k)
        if not f and type(s) is SymKey:
            self.__dict__["nsym"] += 1
        dict.__setitem__(self, s, v)

    def __delitem__(self, k):
        f, s = self._locate(k)
        if not f:
            raise KeyError(k)
        if type(s) is SymKey:
            self.__dict__["nsym"] -= 1
        dict.__delitem__(self, s)

    def __contains__(self, k):
        return self._locate(k)[0]

    def get(self, k, d=None):
        f, s = self._locate(k)
        return dict.__getitem__(self, s) if f else d

    def setdefault(self, k, d=None):
        f, s = self._locate(k)
        if f:
            return dict.__getitem__(self, s)
        self[k] = d
        return d

    def pop(self, k, *d):
        f, s = self._locate(k)
        if not f:
            if d:
                return d[0]
            raise KeyError(k)
        if type(s) is SymKey:
            self.__dict__["nsym"] -= 1
        return dict.pop(self, s)

    def popitem(self):
        s, v = dict.popitem(self)
        if type(s) is SymKey:
            self.__dict__["nsym"] -= 1
        return _unwrap(s), v

    def clear(self):
        self.__dict__["nsym"] = 0
        dict.clear(self)

    def __iter__(self):
        if not self.__dict__["nsym"]:
            return dict.__iter__(self)
        return self._iter()

    def _iter(self):
        for s in dict.__iter__(self):
            yield _unwrap(s)

    def keys(self):
        if not self.__dict__["nsym"]:
            return dict.keys(self)
        return _Keys(self)

    def items(self):
        if not self.__dict__["nsym"]:
            return dict.items(self)
        return _Items(self)

    def update(self, *a, **k):
        if a:
            o = a[0]
            if isinstance(o, dict):
                for x in o.keys():
                    self[x] = o[x]
            elif hasattr(o, "keys"):
                for x in o.keys():
                    self[x] = o[x]
            else:
                for x, y in o:
                    self[x] = y
        for x in k:
            self[x] = k[x]

    def copy(self):
        r = SxDict()
        r.update(self)
        return r

    __copy__ = copy

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        oo = o if isinstance(o, SxDict) else SxDict(o)
        for k, v in self.items():
            f, s = oo._locate(k)
            if not f:
                return False
            if not (dict.__getitem__(oo, s) == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __reversed__(self):
        return iter([_unwrap(s) for s in dict.__reversed__(self)])

    def __repr__(self):
        return "{" + ", ".join("%r: %r" % (k, v) for k, v in self.items()) + "}"

    @classmethod
    def fromkeys(cls, it, v=None):
        r = cls()
        for k in it:
            r[k] = v
        return r


class _Keys(object):
    def __init__(self, d):
        self.d = d

    def __iter__(self):
        return self.d._iter()

    def __len__(self):
        return len(self.d)

    def __contains__(self, k):
        return k in self.d


class _Items(_Keys):
    def __iter__(self):
        for s in dict.__iter__(self.d):
            yield _unwrap(s), dict.__getitem__(self.d, s)

    def __contains__(self, kv):
        return kv[0] in self.d and self.d[kv[0]] == kv[1]


class SxDefaultDict(SxDict):
    def __init__(self, default_factory=None, *a, **k):
        SxDict.__init__(self, *a, **k)
        self.default_factory = default_factory

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k)
        v = self.default_factory()
        self[k] = v
        return v

    def copy(self):
        r = SxDefaultDict(self.default_factory)
        r.update(self)
        return r


class SxSet(object):
    """A set over SxDict storage."""

    def __init__(self, it=()):
        self.d = SxDict()
        for x in it:
            self.d[x] = True

    @property
    def __class__(self):
        return set

    def add(self, x):
        self.d[x] = True

    def discard(self, x):
        self.d.pop(x, None)

    def remove(self, x):
        self.d.pop(x)

    def pop(self):
        for x in self.d:
            break
        else:
            raise KeyError("pop from an empty set")
        del self.d[x]
        return x

    def clear(self):
        self.d.clear()

    def __contains__(self, x):
        return x in self.d

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return len(self.d) > 0

    def update(self, *its):
        for it in its:
            for x in it:
                self.d[x] = True

    def copy(self):
        return SxSet(self)

    def union(self, *o):
        r = SxSet(self)
        r.update(*o)
        return r

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def __ior__(self, o):
        self.update(o)
        return self

    def intersection(self, o):
        o = o if isinstance(o, SxSet) else SxSet(o)
        return SxSet(x for x in list(self) if x in o)

    __and__ = intersection

    def difference(self, *os):
        r = list(self)
        for o in os:
            o = o if isinstance(o, SxSet) else SxSet(o)
            r = [x for x in r if x not in o]
        return SxSet(r)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SxSet(o).difference(self)

    def __isub__(self, o):
        for x in list(o):
            self.discard(x)
        return self

    difference_update = __isub__

    def issubset(self, o):
        o = o if isinstance(o, SxSet) else SxSet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    __le__ = issubset
    __ge__ = issuperset

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)):
            return NotImplemented
        o = o if isinstance(o, SxSet) else SxSet(o)
        return len(self) == len(o) and all(x in o for x in self)

    __hash__ = None

    def __repr__(self):
        return "{" + ", ".join(repr(x) for x in self) + "}"
