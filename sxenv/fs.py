"""In-memory file system behind os, os.path, open, shutil and tempfile.

State is per path (cx.st['fs']).  Hooks for harnesses:
  fs.hook(op, path, node)   called before every operation that touches a file; may raise OSError
  fs.trace                  list of (op, path) in order; path is the canonical absolute path
"""
import errno
import stat as _stat
from sx import rt
from sx.rt import Unsupported


def err(code, path=None):
    msgs = {errno.ENOENT: "No such file or directory", errno.EEXIST: "File exists",
            errno.ENOTDIR: "Not a directory", errno.EISDIR: "Is a directory", errno.EACCES: "Permission denied",
            errno.ENOSPC: "No space left on device", errno.EIO: "Input/output error", errno.ENOTEMPTY:
            "Directory not empty", errno.EXDEV: "Invalid cross-device link", errno.EINVAL: "Invalid argument",
            errno.EBADF: "Bad file descriptor", errno.ELOOP: "Too many levels of symbolic links",
            errno.EPERM: "Operation not permitted", errno.EMFILE: "Too many open files",
            errno.ESRCH: "No such process", errno.ECHILD: "No child processes", errno.EPIPE: "Broken pipe",
            errno.ECONNREFUSED: "Connection refused", errno.EAGAIN: "Resource temporarily unavailable",
            errno.ENAMETOOLONG: "File name too long", errno.EINTR: "Interrupted system call",
            errno.ECONNRESET: "Connection reset by peer", errno.ENOTCONN: "not connected",
            errno.EHOSTUNREACH: "No route to host"}
    return OSError(code, msgs.get(code, "error"))


class Node(object):
    def __init__(self, fs, kind, data=None):
        self.kind = kind
        self.data = b"" if data is None else data
        self.entries = {} if kind == "dir" else None
        self.target = None
        self.parent = None
        self.name = ""
        self.dev = 1
        self.ino = fs.next_ino()
        self.size = None        # overrides len(data)
        self.nlink = 2 if kind == "dir" else 1
        self.stream = False     # can only be read on, like a pipe
        self.exclusive = None

    def path(self):
        parts = []
        n = self
        while n.parent is not None:
            parts.insert(0, n.name)
            n = n.parent
        return "/" + "/".join(parts)


class FS(object):
    def __init__(self):
        self.inos = 1000
        self.root = Node(self, "dir")
        self.trace = []
        self.hook = None
        self.oracle = None      # oracle(dir_node, name, path) -> Node or None: decides about unknown names
        self.statvfs = None
        self.unlinked = []
        self.tmpn = 0
        self.handles = []
        self.opens = []         # (path as given, mode) of every open

    def next_ino(self):
        self.inos += 1
        return self.inos

    # -------------------------------------------------- building (harness side)
    def mkdirs(self, path):
        n = self.root
        for c in path.split("/"):
            if c:
                if c not in n.entries:
                    self.attach(n, c, Node(self, "dir"))
                n = n.entries[c]
        return n

    def put(self, path, data=b""):
        d, _, name = path.rpartition("/")
        return self.attach(self.mkdirs(d), name, Node(self, "file", data))

    def short(self, data):
        """A single read system call may return less than is there (within a budget the harness grants)."""
        left = rt.cx.st.get("short_reads", 0)
        if left <= 0 or len(data) < 2:
            return data
        rt.cx.st["short_reads"] = left - 1
        k = rt.cx.int("read returns", 1, 1 << 30)
        rt.cx.assume(k <= len(data))
        return data[:k]

    def attach(self, parent, name, node):
        parent.entries[name] = node
        node.parent = parent
        node.name = name
        return node

    def detach(self, node):
        del node.parent.entries[node.name]
        node.parent = None

    def peek(self, path):
        """The node at path or None; no hook, no trace, no oracle."""
        n = self.root
        for c in path.split("/"):
            if c:
                if n.kind != "dir" or c not in n.entries:
                    return None
                n = n.entries[c]
        return n

    # -------------------------------------------------- lookup
    def text(self, path):
        if hasattr(path, "__fspath__"):
            path = path.__fspath__()
        if isinstance(path, bytes):
            path = path.decode("utf-8")
        if not isinstance(path, str):
            raise TypeError("expected str, bytes or os.PathLike object")
        if "\0" in path:
            raise ValueError("embedded null byte")
        return path

    def child(self, d, name):
        if name in d.entries:
            return d.entries[name]
        if self.oracle is not None:
            n = self.oracle(d, name)
            if n is not None:
                return self.attach(d, name, n)
        return None

    def walk(self, path, follow=True, depth=0):
        """-> (parent dir node, last name, node or None)"""
        path = self.text(path)
        if len(path) == 0:
            raise err(errno.ENOENT)
        cur = self.root
        comps = [c for c in path.split("/") if not (c == "" or c == ".")]
        parent, name = self.root, ""
        for i, c in enumerate(comps):
            last = i == len(comps) - 1
            if cur.kind != "dir":
                raise err(errno.ENOTDIR)
            if c == "..":
                cur = cur.parent if cur.parent is not None else self.root
                parent = cur.parent if cur.parent is not None else self.root
                name = cur.name
                continue
            n = self.child(cur, c)
            if n is None:
                if last:
                    return cur, c, None
                raise err(errno.ENOENT)
            if n.kind == "link" and (follow or not last):
                if depth > 8:
                    raise err(errno.ELOOP)
                t = n.target
                if not t.startswith("/"):
                    t = cur.path() + "/" + t
                p2, n2, nn = self.walk(t, True, depth + 1)
                if nn is None:
                    if last:
                        return p2, n2, None
                    raise err(errno.ENOENT)
                parent, name, cur = p2, n2, nn
                continue
            parent, name, cur = cur, c, n
        return parent, name, cur

    def get(self, path, follow=True):
        n = self.walk(path, follow)[2]
        if n is None:
            raise err(errno.ENOENT)
        return n

    def touch(self, op, path, node=None):
        self.trace.append((op, path))
        if self.hook is not None:
            self.hook(op, path, node)

    def full(self, parent, name):
        p = parent.path()
        return (p if not p == "/" else "") + "/" + name


def fs():
    cx = rt.cx
    f = cx.st.get("fs")
    if f is None:
        f = cx.st["fs"] = FS()
        for d in ("/tmp", "/var/tmp", "/home/dataplicity", "/proc", "/root"):
            f.mkdirs(d)
    return f


# ---------------------------------------------------------------- files
class File(rt.Model):
    def __init__(self, f, node, mode, path):
        self.fs = f
        self.node = node
        self.mode = mode
        self.name = path
        self.pos = 0
        self.closed = False
        self.binary = "b" in mode
        self.raw = False
        self.dirty = False
        self.canr = "r" in mode or "+" in mode
        self.canw = "w" in mode or "a" in mode or "x" in mode or "+" in mode
        if "a" in mode:
            self.pos = len(node.data)

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def readable(self):
        return self.canr

    def writable(self):
        return self.canw

    def seekable(self):
        return not self.node.stream

    def fileno(self):
        return fd_for(self)

    def read(self, n=-1):
        self._chk()
        if not self.canr:
            raise OSError("not readable")
        if self.node.kind == "dir":
            raise err(errno.EISDIR)
        self.fs.touch("read", self.name, self.node)
        data = self.node.data
        if n is None or n < 0:
            r = data[self.pos:]
        else:
            r = data[self.pos:self.pos + n]
            if self.raw:
                r = self.fs.short(r)
        self.pos = self.pos + len(r)
        if not self.binary:
            r = r.decode("utf-8")
        return r

    def read1(self, n=-1):
        r, self.raw = self.raw, True
        try:
            return self.read(n)
        finally:
            self.raw = r

    def readinto(self, buf):
        r = self.read(len(buf))
        n = len(r)
        buf[:n] = r
        return n

    def readline(self, limit=-1):
        self._chk()
        self.fs.touch("read", self.name, self.node)
        rest = self.node.data[self.pos:]
        i = rest.find(b"\n")
        r = rest if i < 0 else rest[:i + 1]
        self.pos = self.pos + len(r)
        return r if self.binary else r.decode("utf-8")

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l

    def readlines(self):
        return list(self)

    def write(self, data):
        self._chk()
        if not self.canw:
            raise OSError("not writable")
        if not self.binary:
            if not isinstance(data, str):
                raise TypeError("write() argument must be str")
            data = data.encode("utf-8")
        elif isinstance(data, str):
            raise TypeError("a bytes-like object is required, not 'str'")
        self.fs.touch("write", self.name, self.node)
        part = None
        w = rt.cx.st.get("fs_write")
        if w is not None:
            data, part = w(self, data)
        old = self.node.data
        n = len(old)
        if "a" in self.mode:
            self.pos = n
        if self.pos == n:
            self.node.data = old + data
        elif self.pos > n:
            if len(data):
                self.node.data = old + b"\0" * (self.pos - n) + data
        else:
            self.node.data = old[:self.pos] + data + old[self.pos + len(data):]
        self.pos = self.pos + len(data)
        if not self.raw:
            self.dirty = True       # may still be in the buffer of this file object
        if part is not None:
            raise part
        return len(data)

    def writelines(self, ls):
        for l in ls:
            self.write(l)

    def seek(self, off, whence=0):
        self._chk()
        if self.node.stream:
            raise err(errno.ESPIPE)
        if whence == 1:
            off = self.pos + off
        elif whence == 2:
            off = len(self.node.data) + off
        if off < 0:
            raise err(errno.EINVAL)
        self.pos = off
        return off

    def tell(self):
        if self.node.stream:
            raise err(errno.ESPIPE)
        return self.pos

    def truncate(self, n=None):
        self._chk()
        if n is None:
            n = self.pos
        m = len(self.node.data)
        if n < m:
            self.node.data = self.node.data[:n]
        elif n > m:
            self.node.data = self.node.data + b"\0" * (n - m)
        return n

    def flush(self):
        self._chk()
        self.dirty = False

    def close(self):
        if not self.closed:
            c = rt.cx.st.get("fs_closing")
            if c is not None:
                c(self)
            self.closed = True
            self.dirty = False
            if self in self.fs.handles:
                self.fs.handles.remove(self)
            c = rt.cx.st.get("fs_close")
            if c is not None:
                c(self)

    def detach(self):
        return self

    def __enter__(self):
        self._chk()
        return self

    def __exit__(self, *a):
        self.close()


def open_(path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    f = fs()
    if isinstance(path, int):
        h = fd_get(path)
        if isinstance(h, File):
            h.raw = buffering == 0
        return h
    core = mode.replace("b", "").replace("t", "").replace("U", "").replace("+", "")
    if core not in ("r", "w", "a", "x"):
        raise ValueError("invalid mode: %r" % mode)
    f.opens.append((path, mode))
    parent, name, node = f.walk(path)
    full = f.full(parent, name)
    if core == "r":
        f.touch("open-w" if "+" in mode else "open-r", full, node)
        if node is None:
            raise err(errno.ENOENT)
    elif core == "x":
        f.touch("create", full, node)
        if node is not None:
            raise err(errno.EEXIST)
    else:
        f.touch("create" if node is None else ("truncate" if core == "w" else "open-w"), full, node)
    if node is not None and node.kind == "dir":
        raise err(errno.EISDIR)
    if node is None:
        node = f.attach(parent, name, Node(f, "file"))
    elif core == "w":
        node.data = b""
    h = File(f, node, mode, full)
    h.raw = buffering == 0
    f.handles.append(h)
    return h


# ---------------------------------------------------------------- descriptors
def fds():
    return rt.cx.st.setdefault("fds", {})


def fd_for(obj):
    t = fds()
    for k in t:
        if t[k] is obj:
            return k
    n = rt.cx.st.get("nextfd", 10)
    rt.cx.st["nextfd"] = n + 1
    t[n] = obj
    return n


def fd_get(fd):
    if fd is None or not isinstance(fd, int):
        raise TypeError("an integer is required (got type %s)" % type(fd).__name__)
    o = fds().get(fd)
    if o is None:
        raise err(errno.EBADF)
    return o


def os_read(fd, n):
    o = fd_get(fd)
    if isinstance(o, File):
        return o.read1(n)
    return o.read(n)


def os_write(fd, data):
    o = fd_get(fd)
    if isinstance(data, str):
        raise TypeError("a bytes-like object is required, not 'str'")
    return o.write(data)


def os_close(fd):
    o = fd_get(fd)
    del fds()[fd]
    o.close()


def os_open(path, flags, mode=511, dir_fd=None):
    import os
    acc = flags & 3
    m = "rb" if acc == 0 else "r+b"
    f = fs()
    exists = f.walk(path)[2] is not None
    if not exists:
        if not flags & os.O_CREAT:
            raise err(errno.ENOENT)
        h = open_(path, "x+b")
    else:
        if flags & os.O_CREAT and flags & os.O_EXCL:
            raise err(errno.EEXIST)
        h = open_(path, "w+b" if flags & os.O_TRUNC else m)
    h.raw = True
    return fd_for(h)


# ---------------------------------------------------------------- os functions
class Stat(object):
    pass


def _stat_node(n):
    s = Stat()
    s.st_size = n.size if n.size is not None else (len(n.data) if n.kind == "file" else 4096)
    s.st_ino = n.ino
    s.st_dev = n.dev
    s.st_mode = {"dir": _stat.S_IFDIR, "link": _stat.S_IFLNK, "fifo": _stat.S_IFIFO}.get(n.kind, _stat.S_IFREG) | 0o644
    s.st_mtime = s.st_ctime = s.st_atime = 1000.0
    s.st_nlink = n.nlink
    s.st_uid = s.st_gid = 0
    return s


def stat(path, dir_fd=None, follow_symlinks=True):
    f = fs()
    if isinstance(path, int):
        return _stat_node(fd_get(path).node)
    parent, name, node = f.walk(path, follow_symlinks)
    f.touch("stat", f.full(parent, name), node)
    if node is None:
        raise err(errno.ENOENT)
    return _stat_node(node)


def lstat(path, dir_fd=None):
    return stat(path, follow_symlinks=False)


def _kind(path, follow=True):
    try:
        n = fs().walk(path, follow)[2]
    except (OSError, ValueError):
        return None
    return n.kind if n is not None else None


def exists(path):
    try:
        stat(path)
    except (OSError, ValueError):
        return False
    return True


def lexists(path):
    return _kind(path, False) is not None


def isdir(path):
    return _kind(path) == "dir"


def isfile(path):
    return _kind(path) == "file"


def islink(path):
    return _kind(path, False) == "link"


def getsize(path):
    return stat(path).st_size


def mkdir(path, mode=511, dir_fd=None):
    f = fs()
    parent, name, node = f.walk(path)
    f.touch("mkdir", f.full(parent, name), node)
    if node is not None:
        raise err(errno.EEXIST)
    f.attach(parent, name, Node(f, "dir"))


def makedirs(path, mode=511, exist_ok=False):
    p = path
    todo = []
    while not isdir(p):
        todo.insert(0, p)
        q = dirname(p)
        if q == p or q == "":
            break
        p = q
    if not todo:
        if not exist_ok:
            raise err(errno.EEXIST)
        return
    for p in todo:
        try:
            mkdir(p)
        except FileExistsError:
            if not exist_ok or not isdir(p):
                raise


def remove(path, dir_fd=None):
    f = fs()
    parent, name, node = f.walk(path, False)
    f.touch("remove", f.full(parent, name), node)
    if node is None:
        raise err(errno.ENOENT)
    if node.kind == "dir":
        raise err(errno.EISDIR)
    f.detach(node)


def rmdir(path, dir_fd=None):
    f = fs()
    parent, name, node = f.walk(path, False)
    f.touch("rmdir", f.full(parent, name), node)
    if node is None:
        raise err(errno.ENOENT)
    if node.kind != "dir":
        raise err(errno.ENOTDIR)
    if node.entries:
        raise err(errno.ENOTEMPTY)
    f.detach(node)


def rename(src, dst, src_dir_fd=None, dst_dir_fd=None):
    f = fs()
    p1, n1, a = f.walk(src, False)
    p2, n2, b = f.walk(dst, False)
    f.touch("rename-from", f.full(p1, n1), a)
    f.touch("rename-to", f.full(p2, n2), b)
    if a is None:
        raise err(errno.ENOENT)
    if b is a:
        return
    if b is not None:
        if b.kind == "dir" and a.kind != "dir":
            raise err(errno.EISDIR)
        if b.kind != "dir" and a.kind == "dir":
            raise err(errno.ENOTDIR)
        if b.kind == "dir" and b.entries:
            raise err(errno.ENOTEMPTY)
        f.detach(b)
        rt.cx.st.setdefault("replaced", []).append((f.full(p2, n2), b))
    f.detach(a)
    f.attach(p2, n2, a)


def link(src, dst, **k):
    f = fs()
    a = f.get(src)
    p2, n2, b = f.walk(dst, False)
    f.touch("create", f.full(p2, n2), b)
    if b is not None:
        raise err(errno.EEXIST)
    c = Node(f, a.kind, a.data)
    f.attach(p2, n2, c)


def symlink(target, dst, **k):
    f = fs()
    p2, n2, b = f.walk(dst, False)
    f.touch("create", f.full(p2, n2), b)
    if b is not None:
        raise err(errno.EEXIST)
    c = Node(f, "link")
    c.target = target
    f.attach(p2, n2, c)


def readlink(path, **k):
    n = fs().get(path, False)
    if n.kind != "link":
        raise err(errno.EINVAL)
    return n.target


def listdir(path="."):
    f = fs()
    parent, name, node = f.walk(path)
    f.touch("listdir", f.full(parent, name), node)
    if node is None:
        raise err(errno.ENOENT)
    if node.kind != "dir":
        raise err(errno.ENOTDIR)
    return list(node.entries)


class DirEntry(object):
    def __init__(self, f, dirpath, name, node):
        self._fs = f
        self._node = node
        self.name = name
        self.path = join(dirpath, name)

    def _touch(self, op):
        h = rt.cx.st.get("entry_hook")
        if h is not None:
            h(op, self)

    def _target(self, follow):
        if self._node.kind == "link" and follow:
            return self._fs.walk(self._node.path(), True)[2]
        return self._node

    def is_dir(self, follow_symlinks=True):
        self._touch("is_dir")
        n = self._target(follow_symlinks)
        return n is not None and n.kind == "dir"

    def is_file(self, follow_symlinks=True):
        self._touch("is_file")
        n = self._target(follow_symlinks)
        return n is not None and n.kind == "file"

    def is_symlink(self):
        return self._node.kind == "link"

    def inode(self):
        self._touch("inode")
        return self._node.ino

    def stat(self, follow_symlinks=True):
        self._touch("stat")
        n = self._target(follow_symlinks)
        if n is None:
            raise err(errno.ENOENT)
        return _stat_node(n)

    def __fspath__(self):
        return self.path


class ScanIter(object):
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        h = rt.cx.st.get("scan_next")
        if h is not None:
            h()
        return next(self._it)

    def close(self):
        self._it = iter([])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def scandir(path="."):
    f = fs()
    parent, name, node = f.walk(path)
    f.touch("scandir", f.full(parent, name) if name != "" else "/", node)
    if node is None:
        raise err(errno.ENOENT)
    if node.kind != "dir":
        raise err(errno.ENOTDIR)
    it = ScanIter([DirEntry(f, path, n, node.entries[n]) for n in list(node.entries)])
    h = rt.cx.st.get("scan_iter")
    return it if h is None else h(path, node, it)


def walk(top, topdown=True, onerror=None, followlinks=False):
    dirs, files = [], []
    try:
        for e in scandir(top):
            (dirs if e.is_dir() else files).append(e.name)
    except OSError as e:
        if onerror is not None:
            onerror(e)
        return
    if topdown:
        yield top, dirs, files
    for d in dirs:
        p = join(top, d)
        if followlinks or not islink(p):
            for x in walk(p, topdown, onerror, followlinks):
                yield x
    if not topdown:
        yield top, dirs, files


class Vfs(object):
    pass


def statvfs(path):
    f = fs()
    if f.statvfs is not None:
        return f.statvfs(path)
    v = Vfs()
    v.f_blocks, v.f_bfree, v.f_bavail, v.f_frsize, v.f_bsize = 10 ** 9, 10 ** 9, 10 ** 9, 4096, 4096
    return v


def access(path, mode, **k):
    return exists(path)


def noop(*a, **k):
    return None


# ---------------------------------------------------------------- os.path
def join(a, *ps):
    path = fspath(a)
    sep = "/" if isinstance(path, str) else b"/"
    for b in ps:
        b = fspath(b)
        if isinstance(b, str) != isinstance(path, str):
            raise TypeError("Can't mix strings and bytes in path components")
        if b.startswith(sep):
            path = b
        elif not path or path.endswith(sep):
            path = path + b
        else:
            path = path + sep + b
    return path


def fspath(p):
    if isinstance(p, (str, bytes)):
        return p
    if hasattr(p, "__fspath__"):
        return p.__fspath__()
    raise TypeError("expected str, bytes or os.PathLike object, not %s" % type(p).__name__)


def _sep(p):
    return "/" if isinstance(p, str) else b"/"


def split(p):
    p = fspath(p)
    sep = _sep(p)
    i = p.rfind(sep) + 1
    head, tail = p[:i], p[i:]
    if head and not (head == sep * len(head)):
        head = head.rstrip(sep)
    return head, tail


def dirname(p):
    return split(p)[0]


def basename(p):
    return split(p)[1]


def splitext(p):
    p = fspath(p)
    sep, dot = ("/", ".") if isinstance(p, str) else (b"/", b".")
    si = p.rfind(sep)
    di = p.rfind(dot)
    if di > si:
        k = si + 1
        while k < di:
            if not (p[k:k + 1] == dot):
                return p[:di], p[di:]
            k += 1
    return p, p[:0]


def normpath(p):
    p = fspath(p)
    sep = _sep(p)
    empty, dot, dotdot = (p[:0], ".", "..") if isinstance(p, str) else (b"", b".", b"..")
    if p == empty:
        return dot
    slashes = 0
    if p.startswith(sep):
        slashes = 1
        if p.startswith(sep * 2) and not p.startswith(sep * 3):
            slashes = 2
    out = []
    for c in p.split(sep):
        if c == empty or c == dot:
            continue
        if not (c == dotdot) or (not slashes and not out) or (out and out[-1] == dotdot):
            out.append(c)
        elif out:
            out.pop()
    r = sep * slashes + sep.join(out)
    return r or dot


def abspath(p):
    p = fspath(p)
    if not p.startswith(_sep(p)):
        p = join(getcwd() if isinstance(p, str) else getcwd().encode(), p)
    return normpath(p)


def realpath(p, strict=False):
    """Links are followed; missing parts are kept."""
    p = abspath_nonorm(p)
    sep = _sep(p)
    cur = ""
    f = fs()
    comps = [c for c in p.split(sep)]
    out = []
    for c in comps:
        if c == "" or c == ".":
            continue
        if c == "..":
            if out:
                out.pop()
            continue
        out.append(c)
        q = "/" + "/".join(out)
        n = f.peek_oracle(q) if hasattr(f, "peek_oracle") else f.peek(q)
        if n is not None and n.kind == "link":
            t = n.target
            base = "/" + "/".join(out[:-1])
            q = realpath(t if t.startswith("/") else base + "/" + t)
            out = [x for x in q.split("/") if x]
    return "/" + "/".join(out)


def abspath_nonorm(p):
    p = fspath(p)
    return p if p.startswith(_sep(p)) else join(getcwd(), p)


def isabs(p):
    return fspath(p).startswith(_sep(p))


def expanduser(p):
    p = fspath(p)
    if not p.startswith("~"):
        return p
    if p == "~" or p.startswith("~/"):
        return getenv("HOME", "/root").rstrip("/") + p[1:]
    return p


def commonpath(paths):
    paths = [fspath(p) for p in paths]
    if not paths:
        raise ValueError("commonpath() arg is an empty sequence")
    absn = [p.startswith("/") for p in paths]
    if any(absn) and not all(absn):
        raise ValueError("Can't mix absolute and relative paths")
    splits = [[c for c in p.split("/") if c and not (c == ".")] for p in paths]
    n = min(len(s) for s in splits)
    out = []
    for i in range(n):
        if all(s[i] == splits[0][i] for s in splits):
            out.append(splits[0][i])
        else:
            break
    return ("/" if absn[0] else "") + "/".join(out)


def commonprefix(m):
    m = list(m)
    if not m:
        return ""
    s = m[0]
    i = 0
    n = min(len(x) for x in m)
    while i < n and all(x[i] == s[i] for x in m):
        i += 1
    return s[:i]


def relpath(path, start="."):
    a = [c for c in abspath(start).split("/") if c]
    b = [c for c in abspath(path).split("/") if c]
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    out = [".."] * (len(a) - i) + b[i:]
    return "/".join(out) if out else "."


def samefile(a, b):
    return fs().get(a) is fs().get(b)


def getcwd():
    return "/"


# ---------------------------------------------------------------- environment
# the limits are small so that the pools can be filled
ENV = {"HOME": "/home/dataplicity", "PATH": "/bin", "SHELL": "/bin/sh", "DATAPLICITY_LIMIT_SERVICES": "3",
       "DATAPLICITY_LIMIT_TERMINALS": "2"}


class Environ(object):
    def _d(self):
        cx = rt.cx
        if cx is None:
            return dict(ENV)
        return cx.st.setdefault("environ", dict(ENV))

    def get(self, k, d=None):
        return self._d().get(k, d)

    def __getitem__(self, k):
        return self._d()[k]

    def __setitem__(self, k, v):
        self._d()[k] = v

    def __contains__(self, k):
        return k in self._d()

    def copy(self):
        return dict(self._d())

    def items(self):
        return self._d().items()

    def keys(self):
        return self._d().keys()

    def setdefault(self, k, v):
        return self._d().setdefault(k, v)

    def pop(self, k, *d):
        return self._d().pop(k, *d)

    def update(self, *a, **k):
        self._d().update(*a, **k)


environ = Environ()


def getenv(k, d=None):
    return environ.get(k, d)


# ---------------------------------------------------------------- shutil
class SameFileError(OSError):
    pass


class ShError(OSError):
    pass


def copyfile(src, dst, follow_symlinks=True):
    f = fs()
    a = f.walk(src)[2]
    b = f.walk(dst)[2]
    if a is not None and a is b:
        raise SameFileError("same file")
    with open_(src, "rb") as s:
        with open_(dst, "wb") as d:
            c = rt.cx.st.get("fs_copy")
            if c is not None:
                c(s, d)
            else:
                d.write(s.read())
    return dst


def copyfileobj(s, d, length=0):
    while True:
        b = s.read(length or 65536)
        if not b:
            break
        d.write(b)


def copy(src, dst, follow_symlinks=True):
    if isdir(dst):
        dst = join(dst, basename(src))
    copyfile(src, dst)
    return dst


def move(src, dst, copy_function=None):
    real = dst
    if isdir(dst):
        real = join(dst, basename(src.rstrip("/")))
        if exists(real):
            raise ShError("Destination path '%s' already exists" % real)
    try:
        rename(src, real)
    except OSError:
        if isdir(src):
            raise Unsupported("move of a directory across devices")
        copy(src, real)
        remove(src)
    return real


def rmtree(path, ignore_errors=False, onerror=None):
    f = fs()
    n = f.get(path, False)
    f.touch("rmtree", n.path(), n)
    f.detach(n)


def sh_disk_usage(path):
    import collections
    v = statvfs(path)
    T = collections.namedtuple("usage", "total used free")
    return T(v.f_blocks * v.f_frsize, (v.f_blocks - v.f_bfree) * v.f_frsize, v.f_bavail * v.f_frsize)


# ---------------------------------------------------------------- tempfile
def gettempdir():
    return "/tmp"


def _tmpname(prefix, suffix, dir):
    f = fs()
    f.tmpn += 1
    return join(dir or gettempdir(), "%s%08d%s" % (prefix or "tmp", f.tmpn, suffix or ""))


def mkstemp(suffix=None, prefix=None, dir=None, text=False):
    p = _tmpname(prefix, suffix, dir)
    return fd_for(open_(p, "x+b")), p


def mktemp(suffix="", prefix="tmp", dir=None):
    return _tmpname(prefix, suffix, dir)


def mkdtemp(suffix=None, prefix=None, dir=None):
    p = _tmpname(prefix, suffix, dir)
    mkdir(p)
    return p


def NamedTemporaryFile(mode="w+b", buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None,
                       delete=True, errors=None):
    p = _tmpname(prefix, suffix, dir)
    h = open_(p, mode.replace("w", "x") if "w" in mode else mode)
    if delete:
        h.close = lambda: (File.close(h), remove(p) if lexists(p) else None)[0]
    return h


def os_fdopen(fd, mode="r", *a, **k):
    h = fd_get(fd)
    h.mode = mode
    h.binary = "b" in mode
    h.canw = h.canw or "w" in mode or "+" in mode
    return h


def install(reg, w):
    import os
    import shutil
    import tempfile
    import io
    w.globals_extra["open"] = open_
    from sxenv import net
    attrs = dict(stat=stat, lstat=lstat, mkdir=mkdir, makedirs=makedirs, remove=remove, unlink=remove, rmdir=rmdir,
                 rename=rename, replace=rename, renames=rename, link=link, symlink=symlink, readlink=readlink,
                 listdir=listdir, scandir=scandir, DirEntry=DirEntry, walk=walk, statvfs=statvfs, access=access,
                 environ=environ, getenv=getenv, read=os_read, write=os_write, close=os_close, open=os_open,
                 fdopen=os_fdopen, fsync=noop, fdatasync=noop, sync=noop, chmod=noop, chown=noop, utime=noop,
                 getcwd=getcwd, fspath=fspath, error=OSError, umask=lambda m: 0o22,
                 fstat=lambda fd: _stat_node(fd_get(fd).node))
    attrs.update(net.OS)
    reg("os", attrs, os, ("PathLike", "fsencode", "fsdecode", "strerror"))
    reg("os.path", dict(join=join, split=split, dirname=dirname, basename=basename, splitext=splitext,
                        normpath=normpath, abspath=abspath, realpath=realpath, isabs=isabs, exists=exists,
                        lexists=lexists, isdir=isdir, isfile=isfile, islink=islink, getsize=getsize,
                        expanduser=expanduser, commonpath=commonpath, commonprefix=commonprefix, relpath=relpath,
                        samefile=samefile, expandvars=lambda p: p, getmtime=lambda p: stat(p).st_mtime,
                        normcase=lambda p: p, sep="/"), os.path)
    reg("posixpath", {}, None)
    reg("shutil", dict(copyfile=copyfile, copyfileobj=copyfileobj, copy=copy, copy2=copy, move=move, rmtree=rmtree,
                       disk_usage=sh_disk_usage, SameFileError=SameFileError, Error=ShError), shutil)
    reg("tempfile", dict(gettempdir=gettempdir, mkstemp=mkstemp, mktemp=mktemp, mkdtemp=mkdtemp,
                         NamedTemporaryFile=NamedTemporaryFile, tempdir=None), tempfile)
    if w.symbolic:
        from sx.ops import SxBytesIO
        reg("io", dict(BytesIO=io.BytesIO, StringIO=io.StringIO, open=open_), io,
            ("SEEK_SET", "IOBase", "RawIOBase", "BufferedIOBase", "TextIOBase"))
    else:
        reg("io", dict(BytesIO=io.BytesIO, StringIO=io.StringIO, open=open_), io,
            ("SEEK_SET", "IOBase", "RawIOBase", "BufferedIOBase", "TextIOBase"))
