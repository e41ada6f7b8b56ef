"""Registers the environment models in a world."""
import types
from sx import rt
from sx.rt import Unsupported


class Missing(object):
    def __init__(self, name):
        self.__name__ = name
        self.name = name

    def __call__(self, *a, **k):
        raise Unsupported("%s is not modelled" % self.name)


class Stub(types.ModuleType):
    def __init__(self, name, attrs, real=None, safe=()):
        types.ModuleType.__init__(self, name)
        self.__dict__.update(attrs)
        self.__dict__["_real"] = real
        self.__dict__["_safe"] = set(safe)
        self.__dict__["__path__"] = []

    def __getattr__(self, name):
        real = self.__dict__.get("_real")
        if real is None or (name.startswith("__") and name.endswith("__")):
            raise AttributeError(name)
        v = getattr(real, name)
        if name in self._safe or isinstance(v, (int, float, str, bytes, tuple)) or \
                (isinstance(v, type) and issubclass(v, BaseException)):
            return v
        return Missing("%s.%s" % (real.__name__, name))


def install(w):
    import threading
    import time
    import sys
    from sxenv import threads, misc, fs, net, wire, cmdline
    S = w.stubs

    def reg(name, attrs, real=None, safe=()):
        s = Stub(name, attrs, real, safe)
        S[name] = s
        if "." in name:
            par, _, leaf = name.rpartition(".")
            if par in S:
                S[par].__dict__[leaf] = s
        return s

    reg("threading", threads.THREADING, threading)
    reg("time", threads.TIME, time, ("struct_time",))
    misc.install(reg, w)
    fs.install(reg, w)
    net.install(reg, w)
    wire.install(reg, w)
    cmdline.install(reg, w)
