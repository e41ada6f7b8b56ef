"""Run-time state shared by the symbolic engine, the replay engine and the environment stubs.

`cx` is the context of the execution in progress (sx.core.SymCx or sx.replay.ConcCx).
No z3 here: this module is imported by the replay under PyPy 3.9 as well.
"""


class SxSignal(BaseException):
    """Engine control flow; never caught by the code under test (see instr.py)."""


class PathEnd(SxSignal):
    """The current path is over (assumption false, violation recorded, bound reached...)."""


class Violated(SxSignal):
    """Raised by the replay context when a check fails."""

    def __init__(self, msg):
        super(Violated, self).__init__(msg)
        self.msg = msg


class Unsupported(SxSignal):
    """An operation on symbolic values the engine has no model for."""


class EngineError(SxSignal):
    """The engine contradicts itself (a harness that is not deterministic)."""


class Model(object):
    """Base of environment models: attributes that are not modelled end the path without a verdict."""

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        raise Unsupported("%s.%s is not modelled" % (type(self).__name__, name))


cx = None

# set by the engine: True in symbolic runs, False in replays
symbolic = False


def origin(e):
    """'file:function' of the code under test an exception comes from, or None if the harness raised it."""
    tb = e.__traceback__
    last = None
    while tb is not None:
        f = tb.tb_frame.f_code
        n = f.co_filename.replace("\\", "/")
        if "/props/" in n:
            last = None
        elif "/dataplicity/" in n:
            last = "%s:%s" % (n.rpartition("/dataplicity/")[2], f.co_name)
        tb = tb.tb_next
    return last
