"""Concrete context: runs a harness on the real, uninstrumented code with the values of an assignment.

Works on Python 3.9 / PyPy without z3.
"""
import hashlib
import sys
from fractions import Fraction
from . import rt
from .rt import PathEnd, Violated


def opaque_cell(name, spec, i):
    """Cell i of an opaque source: the value the model fixed, else a deterministic filler."""
    c = spec["at"].get(str(i))
    if c is not None:
        return c
    k = (name, i >> 6)
    b = _blocks.get(k)
    if b is None:
        if len(_blocks) > 4096:
            _blocks.clear()
        b = _blocks[k] = _block(name, i >> 6)
    h = bytearray(b)[i & 63]
    if spec.get("hi", 255) <= 127:
        return 97 + h % 26
    return h


_blocks = {}


def _block(name, b):
    return hashlib.sha512(("%s/%d" % (name, b)).encode()).digest()


_LETTERS = bytes(bytearray(97 + h % 26 for h in range(256)))


def opaque_bytes(name, spec):
    """All cells of an opaque source."""
    n = spec["len"]
    r = b"".join([_block(name, b) for b in range((n + 63) >> 6)])[:n]
    if spec.get("hi", 255) <= 127:
        r = r.translate(_LETTERS)
    if spec["at"]:
        r = bytearray(r)
        for i, c in spec["at"].items():
            if 0 <= int(i) < n:
                r[int(i)] = c
        r = bytes(r)
    return r


def canon(v):
    """JSON-comparable form of an observed value."""
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return ["float", str(v)]
        return ["num", round(v, 6) + 0.0]
    if isinstance(v, Fraction):
        return ["num", round(float(v), 6) + 0.0]
    if isinstance(v, int):
        return int(v)
    if isinstance(v, str):
        return v
    if isinstance(v, (bytes, bytearray)):
        v = bytes(v)
        if len(v) > 200:
            return ["b", len(v), hashlib.sha1(v).hexdigest()]
        return ["b", v.decode("latin-1")]
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        return ["d"] + sorted(([canon(k), canon(x)] for k, x in v.items()), key=repr)
    if isinstance(v, BaseException):
        return ["exc", type(v).__name__]
    if isinstance(v, type):
        return ["type", v.__name__]
    return ["obj", type(v).__name__]


class ConcCx(object):
    symbolic = False

    def __init__(self, case, assignment, max_steps=2000000):
        self.case = case
        self.assign = dict(assignment)
        self.counts = {}
        self.st = {}
        self.observed = []
        self.threads = None
        self.dead = False
        self.violation = None
        self.cut = False
        self.reached = {}
        self.cleanups = []
        self.steps = 0
        self.max_steps = max_steps
        self.missing = []

    def cleanup(self):
        for f in reversed(self.cleanups):
            try:
                f()
            except BaseException:
                pass

    def _name(self, name):
        n = self.counts.get(name, 0)
        self.counts[name] = n + 1
        return name if n == 0 else "%s#%d" % (name, n)

    def _get(self, name, default):
        if name not in self.assign:
            self.missing.append(name)
        return self.assign.get(name, default)

    def alive(self):
        if self.dead:
            raise PathEnd()

    def int(self, name, lo=None, hi=None):
        self.alive()
        d = 0
        if lo is not None and d < lo:
            d = lo
        if hi is not None and d > hi:
            d = hi
        return int(self._get(self._name(name), d))

    def bool(self, name):
        self.alive()
        return bool(self._get(self._name(name), False))

    def real(self, name, lo=None, hi=None):
        self.alive()
        v = self._get(self._name(name), None)
        if v is None:
            return lo if lo is not None else 0.0
        f = Fraction(v)
        return float(f)

    def choice(self, name, n):
        self.alive()
        return int(self._get(self._name(name), 0)) % max(n, 1)

    def pick(self, name, options):
        return options[self.choice(name, len(options))]

    def fault(self, name):
        return self.choice("fault:" + name, 2) == 1

    def _opaque(self, name, lo):
        self.alive()
        name = self._name(name)
        spec = self._get(name, None)
        if spec is None:
            spec = {"len": lo if isinstance(lo, int) else 0, "at": {}}
        return opaque_bytes(name, spec)

    def bytes(self, name, lo=0, hi=None):
        return self._opaque(name, lo)

    def text(self, name, lo=0, hi=None):
        return self._opaque(name, lo).decode("latin-1")

    def cells(self, name, n, lo=0, hi=255):
        self.alive()
        return bytes(bytearray(int(self._get(self._name("%s[%d]" % (name, i)), lo)) for i in range(n)))

    def chars(self, name, n, lo=0, hi=127):
        self.alive()
        return "".join(chr(int(self._get(self._name("%s[%d]" % (name, i)), lo))) for i in range(n))

    def assume(self, cond):
        self.alive()
        if not cond:
            self.dead = True
            self.cut = True
            raise PathEnd()

    def check(self, cond, msg):
        self.alive()
        if not cond:
            self.violation = msg
            self.dead = True
            raise Violated(msg)
        return True

    def fail(self, msg):
        self.check(False, msg)

    def reach(self, label):
        self.reached[label] = self.reached.get(label, 0) + 1

    def observe(self, *values):
        self.observed.append(canon(values))

    def stop(self):
        self.dead = True
        raise PathEnd()

    def step(self):
        pass

    def note_concretized(self, s):
        pass

    def note_incomplete(self, s):
        pass

    def decide(self, e):
        return bool(e)


def run_one(harness, case, assignment):
    """-> dict(violation, observed, cut, error)"""
    from . import loader
    cx = ConcCx(case, assignment)
    rt.cx = cx
    rt.symbolic = False
    out = {"violation": None, "observed": None, "cut": False, "error": None}
    try:
        fn = loader.load_harness(harness, symbolic=False)
        try:
            fn(cx, **case)
        except Violated as e:
            out["violation"] = e.msg
        except PathEnd:
            pass
    except rt.SxSignal as e:
        out["error"] = "%s: %s" % (type(e).__name__, e)
    except Exception as e:
        import traceback
        out["error"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
        out["exception"] = "EXCEPTION %s escapes from %s" % (type(e).__name__, rt.origin(e))
    finally:
        if cx.violation is not None and out["violation"] is None:
            out["violation"] = cx.violation
        cx.dead = True
        cx.cleanup()
        rt.cx = None
    out["observed"] = cx.observed
    out["cut"] = cx.cut
    out["missing"] = cx.missing[:5]
    return out


def main(argv):
    import json
    import os
    sys.unraisablehook = lambda *a: None
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    with open(argv[1]) as f:
        jobs = json.load(f)
    for j in jobs:
        # one line per finished job, so that a hang is attributed to the next one
        r = run_one(j["harness"], j["case"], j["assignment"])
        sys.stdout.write(json.dumps(r) + "\n")
        sys.stdout.flush()
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main(sys.argv)
