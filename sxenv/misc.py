"""Models of logging, random, platform, distro, sys, argparse (real), signal-free odds and ends."""
import sys
from sx import rt
from sxenv import cmdline
from sx.rt import Unsupported


def _rec(level, msg, args, kw):
    cx = rt.cx
    if cx is None:
        return
    h = cx.st.get("log")
    if h is not None:
        h(level, msg, args)
        # what is logged of the exception being handled
        h = cx.st.get("log_exc")
        e = kw.get("exc_info")
        if h is not None and e:
            if not isinstance(e, BaseException):
                e = e[1] if isinstance(e, tuple) else sys.exc_info()[1]
            while e is not None:
                h(e)
                e = e.__cause__ or e.__context__


class Logger(object):
    def __init__(self, name="root"):
        self.name = name
        self.level = 20
        self.handlers = []

    def debug(self, msg, *a, **k):
        _rec("debug", msg, a, k)

    def info(self, msg, *a, **k):
        _rec("info", msg, a, k)

    def warning(self, msg, *a, **k):
        _rec("warning", msg, a, k)

    warn = warning

    def error(self, msg, *a, **k):
        _rec("error", msg, a, k)

    def exception(self, msg, *a, **k):
        k.setdefault("exc_info", True)
        _rec("error", msg, a, k)

    def critical(self, msg, *a, **k):
        _rec("critical", msg, a, k)

    fatal = critical

    def log(self, level, msg, *a, **k):
        _rec(level, msg, a, k)

    def isEnabledFor(self, level):
        return True

    def getEffectiveLevel(self):
        return 10

    def setLevel(self, level):
        pass

    def addHandler(self, h):
        pass

    def removeHandler(self, h):
        pass


_loggers = {}


def getLogger(name=None):
    return Logger(name or "root")


def basicConfig(**kw):
    cx = rt.cx
    if cx is not None:
        cx.st.setdefault("logging_config", []).append(kw)


def dictConfig(cfg):
    cx = rt.cx
    if cx is not None:
        cx.st.setdefault("logging_config", []).append(cfg)


class NullHandler(object):
    pass


_root = Logger()

LOGGING = {"getLogger": getLogger, "Logger": Logger, "basicConfig": basicConfig, "NullHandler": NullHandler,
           "debug": _root.debug, "info": _root.info, "warning": _root.warning, "error": _root.error,
           "exception": _root.exception, "critical": _root.critical,
           "DEBUG": 10, "INFO": 20, "WARNING": 30, "WARN": 30, "ERROR": 40, "CRITICAL": 50, "NOTSET": 0,
           "FATAL": 50}


def rand_choice(seq):
    cx = rt.cx
    h = cx.st.get("random")
    if h is not None:
        return h(seq)
    return seq[0]


class Out(object):
    """stdout / stderr"""

    def __init__(self, name):
        self.name = name
        self.encoding = "utf-8"

    @property
    def buffer(self):
        return self

    def write(self, s):
        cx = rt.cx
        if cx is not None:
            h = cx.st.get("out_fault")
            if h is not None:
                h(self.name)
            cx.st.setdefault(self.name, []).append(s)
        return len(s)

    def writelines(self, lines):
        for s in lines:
            self.write(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        return {"stdout": 1, "stderr": 2}[self.name]


STDOUT = Out("stdout")
STDERR = Out("stderr")


def print_(*args, **kw):
    f = kw.get("file")
    if f is None:
        f = STDOUT
    sep = kw.get("sep")
    end = kw.get("end")
    text = (" " if sep is None else sep).join([str(a) for a in args])
    f.write(text + ("\n" if end is None else end))


def sys_exit(code=None):
    raise SystemExit(code)


def install(reg, w):
    import logging
    import random
    import platform
    import sys
    reg("logging", LOGGING, logging)
    reg("logging.config", {"dictConfig": dictConfig})
    reg("logging.handlers", {})
    reg("random", {"choice": rand_choice, "random": lambda: 0.5, "randint": lambda a, b: a,
                   "uniform": lambda a, b: a, "SystemRandom": None}, random)

    def uname():
        h = rt.cx.st.get("uname")
        return h() if h is not None else ("Linux", "host", "5.0", "#1", "x86_64", "")

    reg("platform", {"uname": uname}, platform)

    def dist(name):
        def f(*a, **k):
            h = rt.cx.st.get("distro")
            return h(name) if h is not None else name
        return f
    reg("distro", {"name": dist("name"), "version": dist("version"), "codename": dist("codename")})

    s = reg("sys", {"stdout": STDOUT, "stderr": STDERR, "exit": sys_exit,
                    "path": [], "modules": {},
                    "getfilesystemencoding": lambda: "utf-8", "getdefaultencoding": lambda: "utf-8",
                    "exc_info": sys.exc_info, "getrecursionlimit": lambda: 1000,
                    "intern": lambda s: s}, sys, ("version_info", "maxsize", "byteorder", "flags", "implementation",
                                                  "float_info"))

    w.globals_extra["print"] = print_

    class SysStub(type(s)):
        @property
        def argv(self):
            return cmdline.argv()

    s.__class__ = SysStub
    return s
