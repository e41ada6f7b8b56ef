"""Evaluation of symbolic JSON payloads under a model (symbolic runs only)."""
import json as _json
from fractions import Fraction


def evaluator(n):
    def f(ev):
        return _json.dumps(_ev(n, ev))
    return f


def _ev(o, ev):
    if isinstance(o, dict):
        return dict((_ev(k, ev), _ev(v, ev)) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return [_ev(x, ev) for x in o]
    v = ev(o)
    if isinstance(v, Fraction):
        v = float(v)
    return v
