"""Helpers for harnesses, meaning the same on symbolic and concrete values."""
from sx import rt


def And(*xs):
    if rt.symbolic:
        from sx.values import conj, be, mkbool
        return mkbool(conj([x if isinstance(x, bool) and type(x) is bool else be(x) for x in xs]))
    return all(xs)


def Not(x):
    if rt.symbolic:
        from sx.values import neg
        return neg(x)
    return not x


def Or(*xs):
    return Not(And(*[Not(x) for x in xs]))


def Implies(a, b):
    return Or(Not(a), b)


def is_symbolic(x):
    if rt.symbolic:
        from sx.values import is_sym
        return is_sym(x)
    return False


def has_symbolic(x):
    if rt.symbolic:
        from sx.values import has_sym
        return has_sym(x)
    return False


def total(seqs, empty=b""):
    r = empty
    for s in seqs:
        r = r + s
    return r


def token_payload(seq):
    """The object a JSON token stands for, or None."""
    if rt.symbolic:
        from sx.values import token_payload as f
        return f(seq)
    return None


def json_text(obj):
    """JSON text of a (possibly symbolic) value."""
    from sxenv import wire
    return wire.dumps(obj)


def json_bytes(obj):
    return json_text(obj).encode("utf-8")


def parse_json(s):
    """The value of a JSON text the code under test produced, or None if it is not JSON."""
    from sxenv import wire
    try:
        return wire.loads(s)
    except ValueError:
        return None


class Fake(rt.Model):
    """Base of the collaborators harnesses hand to the code under test."""


def caught(fn, *args, **kw):
    """(result, None) or (None, exception)"""
    try:
        return fn(*args, **kw), None
    except Exception as e:
        return None, e


def same_value(a, b):
    """Structural equality; lists compare with lists only, bytes with bytes."""
    if isinstance(a, list) or isinstance(b, list):
        if not (isinstance(a, list) and isinstance(b, list)) or len(a) != len(b):
            return False
        return And(*[same_value(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or len(a) != len(b):
            return False
        out = []
        for k in b:
            if k not in a:
                return False
            out.append(same_value(a[k], b[k]))
        return And(*out)
    for t in (bytes, str, int):
        if isinstance(a, t) != isinstance(b, t):
            return False
    return a == b
