"""Loads the code under test from the repository, and the environment models it runs against.

Symbolic mode: everything is instrumented (instr.py); replay: the plain sources are compiled.
Modules are loaded once per world; module and class state is put back before every path.
"""
import builtins
import os
import sys
import types
from . import rt

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_real_import = builtins.__import__

# roots of modules loaded through this loader
ROOTS = {
    "dataplicity": lambda: REPO,
    "sxenv": lambda: VERIF,
    "props": lambda: VERIF,
}

_code_cache = {}


class World(object):
    def __init__(self, symbolic, yields=()):
        self.symbolic = symbolic
        self.yields = tuple(yields)
        self.modules = {}
        self.stubs = {}
        self.globals_extra = {}
        self.snap = None
        self.saved = None

    # ------------------------------------------------------------ modules
    def path_of(self, name):
        root = ROOTS[name.split(".")[0]]()
        p = os.path.join(root, *name.split("."))
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            return (f if os.path.exists(f) else None), True, p
        return (p + ".py" if os.path.exists(p + ".py") else None), False, p

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if "." in name:
            self.load(name.rpartition(".")[0])
            if name in self.modules:
                return self.modules[name]
        f, pkg, p = self.path_of(name)
        if f is None and not pkg:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = f or p
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [p]
        self.modules[name] = m
        sys.modules[name] = m
        g = m.__dict__
        if self.symbolic:
            from . import ops
            g.update(ops.NAMES)
        elif name.startswith("dataplicity"):
            g["__sx_yield__"] = _yield
        if name.split(".")[0] == "dataplicity":
            g.update(self.globals_extra)
        if f is not None:
            try:
                exec(self.code(name, f), g)
            except BaseException:
                self.modules.pop(name, None)
                sys.modules.pop(name, None)
                raise
        if "." in name:
            par, _, leaf = name.rpartition(".")
            setattr(self.modules[par], leaf, m)
        return m

    def code(self, name, f):
        y = name in self.yields or any(name.startswith(p + ".") for p in self.yields)
        with open(f, "rb") as fh:
            src = fh.read()
        key = (f, src, self.symbolic, y)
        c = _code_cache.get(key)
        if c is None:
            if self.symbolic or y:
                from . import instr
                c = instr.transform(src, f, name, symbolic=self.symbolic, yields=y)
            else:
                c = compile(src, f, "exec", dont_inherit=True)
            _code_cache[key] = c
        return c

    def imp(self, name, globals, fromlist, level):
        if level:
            pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            name = pkg + ("." + name if name else "")
        top = name.split(".")[0]
        if top in ROOTS:
            m = self.load(name)
            if not fromlist:
                return self.modules[top]
            for x in fromlist:
                if x != "*" and not hasattr(m, x) and hasattr(m, "__path__"):
                    try:
                        self.load(name + "." + x)
                    except ModuleNotFoundError:
                        pass
            return m
        caller = globals.get("__name__", "")
        if caller.split(".")[0] in ("dataplicity",):
            s = self.stubs.get(name)
            if s is not None:
                if fromlist:
                    return s
                return self.stubs.get(top, s)
            if name in BLOCKED or top in BLOCKED:
                from .rt import Unsupported
                raise Unsupported("module %s is not modelled" % name)
        return None

    def again(self):
        """Forget the modules of the code under test, so that they are loaded anew as by a new process; the next path
        has the first ones again."""
        now = {n: m for n, m in self.modules.items() if n.split(".")[0] == "dataplicity"}
        if self.saved is None:
            self.saved = now
        self._swap(now, {})

    def _swap(self, out, into):
        for n in out:
            del self.modules[n]
            sys.modules.pop(n, None)
        self.modules.update(into)
        sys.modules.update(into)

    # ------------------------------------------------------------ state between paths
    def snapshot(self):
        self.snap = []
        seen = set()
        for m in list(self.modules.values()):
            if m.__name__.split(".")[0] == "dataplicity":
                self._snap(m.__dict__, seen, 0)

    def _snap(self, d, seen, depth):
        if id(d) in seen:
            return
        seen.add(id(d))
        self.snap.append(("dict", d, dict(d)))
        for k, v in list(dict.items(d)):
            if isinstance(k, str) and k.startswith("__") and k.endswith("__"):
                continue
            self._snap_value(v, seen, depth)

    def _snap_value(self, v, seen, depth):
        if depth > 4 or id(v) in seen:
            return
        t = type(v)
        if isinstance(v, type):
            if getattr(v, "__module__", "").split(".")[0] != "dataplicity" or hasattr(v, "__members__"):
                return
            seen.add(id(v))
            self.snap.append(("class", v, dict(v.__dict__)))
            for x in list(v.__dict__.values()):
                self._snap_value(x, seen, depth + 1)
        elif isinstance(v, types.FunctionType):
            if getattr(v, "__module__", "").split(".")[0] != "dataplicity":
                return
            seen.add(id(v))
            if v.__dict__:
                self._snap(v.__dict__, seen, depth + 1)
            for x in (v.__defaults__ or ()):
                self._snap_value(x, seen, depth + 1)
            for c in (v.__closure__ or ()):
                try:
                    self._snap_value(c.cell_contents, seen, depth + 1)
                except ValueError:
                    pass
        elif t in (staticmethod, classmethod):
            self._snap_value(v.__func__, seen, depth + 1)
        elif isinstance(v, dict):
            seen.add(id(v))
            self.snap.append(("dict", v, dict(dict.items(v))))
            if hasattr(v, "nsym"):
                self.snap.append(("attrs", v, dict(v.__dict__)))
            for x in list(dict.values(v)):
                self._snap_value(x, seen, depth + 1)
        elif isinstance(v, list):
            seen.add(id(v))
            self.snap.append(("list", v, list(v)))
            for x in v:
                self._snap_value(x, seen, depth + 1)
        elif t is set:
            seen.add(id(v))
            self.snap.append(("set", v, set(v)))
        elif t.__name__ == "deque":
            self.snap.append(("deque", v, list(v)))
        elif t.__name__ == "SxSet":
            self._snap_value(v.d, seen, depth + 1)
        elif getattr(t, "__module__", "").split(".")[0] == "dataplicity" and hasattr(v, "__dict__") \
                and not isinstance(v, types.ModuleType):
            seen.add(id(v))
            self._snap(v.__dict__, seen, depth + 1)

    def restore(self):
        if self.saved is not None:
            self._swap([n for n in self.modules if n.split(".")[0] == "dataplicity"], self.saved)
            self.saved = None
        for kind, o, old in self.snap:
            if kind == "dict":
                if dict(dict.items(o)) is not old:
                    dict.clear(o)
                    dict.update(o, old)
            elif kind == "attrs":
                o.__dict__.clear()
                o.__dict__.update(old)
            elif kind == "class":
                now = o.__dict__
                for k in list(now):
                    if k not in old:
                        delattr(o, k)
                for k, v in old.items():
                    if now.get(k) is not v and k not in ("__dict__", "__weakref__"):
                        setattr(o, k, v)
            elif kind == "list":
                o[:] = old
            elif kind == "set":
                o.clear()
                o.update(old)
            elif kind == "deque":
                o.clear()
                o.extend(old)


def _yield(line):
    c = rt.cx
    if c is not None and c.threads is not None:
        c.threads.yield_point(line)


BLOCKED = {"ctypes", "multiprocessing", "asyncio", "concurrent", "pathlib", "glob", "mmap", "http", "requests",
           "ssl", "ftplib", "socketserver", "telnetlib", "paramiko", "psutil", "fileinput", "zipfile", "tarfile",
           "gzip", "sqlite3", "dbm", "shelve", "pexpect"}

_world = None


def _sx_import(name, globals=None, locals=None, fromlist=(), level=0):
    w = _world
    if w is not None and globals is not None:
        caller = globals.get("__name__")
        if caller is not None and caller.split(".")[0] in ROOTS:
            r = w.imp(name, globals, fromlist, level)
            if r is not None:
                return r
    return _real_import(name, globals, locals, fromlist, level)


def load(name):
    """A module of the code under test, as a new process would load it."""
    return _world.load(name)


def new_process():
    _world.again()


def make_world(symbolic, yields=()):
    global _world
    for n in list(sys.modules):
        if n.split(".")[0] in ROOTS:
            del sys.modules[n]
    w = World(symbolic, yields)
    _world = w
    builtins.__import__ = _sx_import
    env = w.load("sxenv.install")
    env.install(w)
    return w


def load_harness(name, symbolic):
    """name: 'props.c01:harness' or 'props.c01:harness@yieldmod1,yieldmod2'"""
    spec, _, y = name.partition("@")
    mod, _, fn = spec.partition(":")
    w = make_world(symbolic, [x for x in y.split(",") if x])
    m = w.load(mod)
    f = getattr(m, fn)
    w.snapshot()
    if not symbolic:
        return f

    def run(cx, **case):
        w.restore()
        f(cx, **case)
    run.world = w
    return run
