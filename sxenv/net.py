"""Models of sockets, poll, subprocesses, pseudo terminals, signals and descriptors of the operating system.

Everything the outside world decides is asked from the harness through hooks in cx.st:
  net      object with connect(sock, addr), recv(sock, n), sendall(sock, data) and optionally create(sock), peek
  poll     callable(poll, timeout) -> [(fd, mask)]
  popen    callable(Popen object, command, kwargs): fills in stdout, stderr ...
  output   callable(command) -> bytes (check_output and friends)
  kill / waitpid / fork / exec / setuid / setgid / ioctl / pwd / grp
"""
import errno
import select as _select
import signal as _signal
import socket as _socket
import subprocess as _subprocess
from sx import rt
from sx.rt import Unsupported


def hook(name):
    return rt.cx.st.get(name)


def record(kind, *args):
    rt.cx.st.setdefault("sys", []).append((kind,) + args)


def need(name):
    h = rt.cx.st.get(name)
    if h is None:
        raise Unsupported("no environment for %s" % name)
    return h


# ---------------------------------------------------------------- sockets
class Socket(rt.Model):
    def __init__(self, family=2, type=1, proto=0, fileno=None):
        from sxenv import fs
        self.family = family
        self.type = type
        self.timeout = None
        self.opts = []
        self.addr = None
        self.shut_rd = False
        self.shut_wr = False
        self.closed = False
        rt.cx.st.setdefault("sockets", []).append(self)
        n = hook("net")
        c = getattr(n, "create", None)
        if c is not None:
            c(self)
        self.fd = fs.fd_for(self)

    def fileno(self):
        return -1 if self.closed else self.fd

    def setsockopt(self, *a):
        self.opts.append(a)

    def getsockopt(self, *a):
        return 0

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setblocking(self, b):
        self.timeout = None if b else 0.0

    def _open(self):
        from sxenv import fs
        if self.closed:
            raise fs.err(errno.EBADF)

    def connect(self, addr):
        self._open()
        self.tried = addr
        record("connect", addr)
        port = addr[1]
        if isinstance(port, (str, bytes)) or port is None:
            raise TypeError("an integer is required")
        if port < 0 or port > 65535:
            raise OverflowError("connect(): port must be 0-65535.")
        need("net").connect(self, addr)
        self.addr = addr

    def connect_ex(self, addr):
        try:
            self.connect(addr)
        except OSError as e:
            return e.errno or errno.EAGAIN
        return 0

    def recv(self, n, flags=0):
        self._open()
        return need("net").recv(self, n)

    def recv_into(self, buf, n=0, flags=0):
        d = self.recv(n or len(buf))
        k = len(d)
        buf[:k] = d
        return k

    def sendall(self, data, flags=0):
        self._open()
        if isinstance(data, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        if self.shut_wr:
            from sxenv import fs
            raise fs.err(errno.EPIPE)
        need("net").sendall(self, data)

    def send(self, data, flags=0):
        self._open()
        if isinstance(data, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        if self.shut_wr:
            from sxenv import fs
            raise fs.err(errno.EPIPE)
        n = need("net")
        s = getattr(n, "send", None)
        if s is not None:
            return s(self, data)
        n.sendall(self, data)
        return len(data)

    def shutdown(self, how):
        from sxenv import fs
        self._open()
        if self.addr is None:
            raise fs.err(errno.ENOTCONN)
        if how in (0, 2):
            self.shut_rd = True
        if how in (1, 2):
            self.shut_wr = True
        n = hook("net")
        s = getattr(n, "shutdown", None)
        if s is not None:
            s(self, how)

    def close(self):
        from sxenv import fs
        if not self.closed:
            self.closed = True
            t = fs.fds()
            if t.get(self.fd) is self:
                del t[self.fd]

    def detach(self):
        self.closed = True
        return self.fd

    def getpeername(self):
        return self.addr

    def getsockname(self):
        return ("127.0.0.1", 40000)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # descriptor operations (os.read and friends)
    def read(self, n):
        return self.recv(n)

    def write(self, data):
        return self.send(data)


def create_connection(addr, timeout=None, source_address=None):
    s = Socket()
    s.settimeout(timeout)
    s.connect(addr)
    return s


def inet_ntoa(b):
    if len(b) != 4:
        raise OSError("illegal IP address string passed to inet_ntoa")
    return "%d.%d.%d.%d" % (b[0], b[1], b[2], b[3])


# ---------------------------------------------------------------- poll
class Poll(rt.Model):
    def __init__(self):
        self.registered = {}
        rt.cx.st.setdefault("polls", []).append(self)

    def _fd(self, fd):
        if not isinstance(fd, int):
            fd = fd.fileno()
        return fd

    def register(self, fd, mask=_select.POLLIN | _select.POLLPRI | _select.POLLOUT):
        from sxenv import fs
        fd = self._fd(fd)
        if fd < 0:
            raise ValueError("file descriptor cannot be a negative integer (-1)")
        self.registered[fd] = mask

    def modify(self, fd, mask):
        fd = self._fd(fd)
        if fd not in self.registered:
            raise FileNotFoundError(errno.ENOENT, "not registered")
        self.registered[fd] = mask

    def unregister(self, fd):
        fd = self._fd(fd)
        if fd not in self.registered:
            raise KeyError(fd)
        del self.registered[fd]

    def poll(self, timeout=None):
        return need("poll")(self, timeout)


def select_select(r, w, x, timeout=None):
    p = Poll()
    byfd = {}
    for o in r:
        fd = o if isinstance(o, int) else o.fileno()
        byfd[fd] = o
        p.register(fd, _select.POLLIN | _select.POLLPRI)
    out = []
    for fd, mask in p.poll(None if timeout is None else timeout * 1000):
        if fd in byfd:
            out.append(byfd[fd])
    return out, list(w), []


# ---------------------------------------------------------------- subprocesses
class Pipe(rt.Model):
    """One end of a pipe held by the agent; the harness supplies read()."""

    def __init__(self, name, read=None, write=None):
        from sxenv import fs
        self.name = name
        self.closed = False
        self._read = read
        self._write = write
        self.fd = fs.fd_for(self)

    def fileno(self):
        return self.fd

    def read(self, n=-1):
        if self._read is None:
            raise Unsupported("read from " + self.name)
        return self._read(n)

    def write(self, data):
        if self._write is None:
            raise Unsupported("write to " + self.name)
        return self._write(data)

    def close(self):
        from sxenv import fs
        self.closed = True
        fs.fds().pop(self.fd, None)


class Popen(rt.Model):
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, **kw):
        kwargs = dict(stdin=stdin, stdout=stdout, stderr=stderr, shell=shell, cwd=cwd, env=env)
        kwargs.update(kw)
        self.args = args
        self.stdin = self.stdout = self.stderr = None
        self.returncode = None
        self.pid = 4242
        self.killed = False
        record("popen", args, kwargs)
        need("popen")(self, args, kwargs)
        rt.cx.st.setdefault("procs", []).append(self)

    def poll(self):
        h = hook("popen_poll")
        if self.returncode is None and h is not None:
            self.returncode = h(self)
        return self.returncode

    def wait(self, timeout=None):
        h = hook("popen_wait")
        if self.returncode is None:
            if h is None:
                raise Unsupported("wait for a process")
            self.returncode = h(self, timeout)
        return self.returncode

    def communicate(self, input=None, timeout=None):
        raise Unsupported("communicate")

    def kill(self):
        record("prockill", self.pid)
        self.killed = True

    def terminate(self):
        record("procterm", self.pid)
        self.killed = True

    def send_signal(self, s):
        record("procsignal", self.pid, s)
        self.killed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def check_output(args, **kw):
    record("check_output", args, kw)
    out = need("output")(args)
    if kw.get("text") or kw.get("universal_newlines") or kw.get("encoding"):
        out = out.decode(kw.get("encoding") or "utf-8")
    return out


class Completed(object):
    pass


def run(args, **kw):
    record("run", args, kw)
    c = Completed()
    c.args = args
    c.returncode = 0
    c.stdout = need("output")(args)
    c.stderr = b""
    return c


def call(args, **kw):
    record("call", args, kw)
    h = hook("call")
    return h(args) if h is not None else 0


# ---------------------------------------------------------------- processes and terminals
def kill(pid, sig):
    from sxenv import fs
    if pid is None or not isinstance(pid, int):
        raise TypeError("an integer is required")
    record("kill", pid, int(sig))
    h = hook("kill")
    if h is not None:
        h(pid, sig)


def killpg(pgid, sig):
    kill(-pgid, sig)


def getpgid(pid):
    # the agent runs in its supervisor's process group; a terminal's process leads its own
    return 600 if pid in (0, getpid()) else pid


def waitpid(pid, options):
    record("waitpid", pid)
    return need("waitpid")(pid, options)


def getpid():
    return 777


def fork():
    pid, fd = need("fork")()
    record("fork", pid)
    return pid, fd


def _identity(name):
    def change(*args):
        record(name, *args)
        h = hook(name)
        if h is not None:
            return h(*args)
    return change


setuid, setgid = _identity("setuid"), _identity("setgid")
setgroups, initgroups = _identity("setgroups"), _identity("initgroups")


def leave(status):
    """os._exit"""
    record("_exit", status)
    need("_exit")(status)


def execlp(f, *args):
    record("exec", f, list(args))
    h = hook("exec")
    if h is not None:
        h(f, args)


def execvp(f, args):
    execlp(f, *args)


class _Struct(object):
    """A named tuple of the system's databases."""

    FIELDS = ()

    def __init__(self, *values):
        self._values = values
        for f, v in zip(self.FIELDS, values):
            setattr(self, f, v)

    def __getitem__(self, i):
        return self._values[i]

    def __len__(self):
        return len(self._values)

    def __iter__(self):
        return iter(self._values)


class Passwd(_Struct):
    FIELDS = ("pw_name", "pw_passwd", "pw_uid", "pw_gid", "pw_gecos", "pw_dir", "pw_shell")


class Group(_Struct):
    FIELDS = ("gr_name", "gr_passwd", "gr_gid", "gr_mem")


def getpwnam(n):
    h = hook("pwd")
    r = h(n) if h is not None else None
    if r is None:
        raise KeyError("getpwnam(): name not found")
    return Passwd(n, "x", r, r, "", "/home/" + n, "/bin/sh")


def getgrnam(n):
    h = hook("grp")
    r = h(n) if h is not None else None
    if r is None:
        raise KeyError("getgrnam(): name not found")
    return Group(n, "x", r, [])


class Array(object):
    """array.array with possibly symbolic items; its address is a token given to ioctl."""

    _next = [0x10000]

    def __init__(self, typecode, init=()):
        self.typecode = typecode
        self.items = init
        self.ptr = Array._next[0] + 0x10000 * len(rt.cx.st.setdefault("arrays", {}))
        rt.cx.st["arrays"][self.ptr] = self

    def buffer_info(self):
        return (self.ptr, len(self.items))

    def tobytes(self):
        if isinstance(self.items, bytes):
            return self.items
        raise Unsupported("array.tobytes")

    tostring = tobytes

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]

    def __iter__(self):
        return iter(self.items)

    def __setitem__(self, i, v):
        self.items = list(self.items)
        self.items[i] = v

    def append(self, v):
        self.items = list(self.items) + [v]

    def extend(self, vs):
        self.items = list(self.items) + list(vs)


def ioctl(fd, req, arg=0, mutate=True):
    record("ioctl", fd, req, arg)
    h = hook("ioctl")
    if h is None:
        return 0
    return h(fd, req, arg)


def _exited(s):
    return (s & 0x7f) == 0


def _signaled(s):
    return not ((s & 0x7f) == 0) and not ((s & 0x7f) == 0x7f)


def _stopped(s):
    return (s & 0xff) == 0x7f


def _high(s):
    return (s >> 8) & 0xff


def _low(s):
    return s & 0x7f


OS = {"WIFEXITED": _exited, "WIFSIGNALED": _signaled, "WIFSTOPPED": _stopped, "WEXITSTATUS": _high,
      "WSTOPSIG": _high, "WTERMSIG": _low, "getpid": getpid, "kill": kill, "waitpid": waitpid, "setuid": setuid, "setgid": setgid,
      "setgroups": setgroups, "initgroups": initgroups, "_exit": leave, "execlp": execlp,
      "execvp": execvp, "execvpe": lambda f, args, env: execvp(f, args), "getuid": lambda: 0, "geteuid": lambda: 0, "getppid": lambda: 1,
      "killpg": killpg, "getpgid": getpgid, "getpgrp": lambda: getpgid(0)}

OS_SAFE = ("WNOHANG", "WUNTRACED", "WCONTINUED", "EX_OK", "EX_OSERR")


def install(reg, w):
    import array
    import fcntl
    import termios
    reg("socket", {"socket": Socket, "create_connection": create_connection, "inet_ntoa": inet_ntoa,
                   "error": OSError, "timeout": _socket.timeout, "gethostname": lambda: "host"}, _socket,
        ("AF_INET", "SOCK_STREAM", "SOCK_DGRAM"))
    reg("select", {"poll": Poll, "select": select_select, "error": OSError}, _select)
    reg("subprocess", {"Popen": Popen, "check_output": check_output, "run": run, "call": call, "check_call": call,
                       "STDOUT": -2, "PIPE": -1, "DEVNULL": -3,
                       "CalledProcessError": _subprocess.CalledProcessError,
                       "TimeoutExpired": _subprocess.TimeoutExpired}, _subprocess)
    reg("signal", {"signal": lambda s, h: record("signal", int(s))}, _signal,
        [n for n in dir(_signal) if n.startswith("SIG")])
    reg("pty", {"fork": fork, "CHILD": 0, "STDIN_FILENO": 0, "STDOUT_FILENO": 1, "STDERR_FILENO": 2})
    reg("fcntl", {"ioctl": ioctl}, fcntl)
    reg("termios", {}, termios)
    reg("array", {"array": Array}, array)
    reg("pwd", {"getpwnam": getpwnam})
    reg("grp", {"getgrnam": getgrnam})
