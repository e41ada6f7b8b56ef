"""The remote directory behind the m2m client: real RemoteDirectory, real client, in-memory files."""
from props.stack import *
from sxenv import fs as fsenv
from dataplicity.remote_directory import RemoteDirectory
from dataplicity.directory_scanner import DirectoryScanner

ROOT = "/r"
SNAPS = "/var/tmp/dataplicity_remote"
DOWNS = "/var/tmp/dataplicity_remote_downloads"
SCAN_FILE = "/tmp/__dataplicity_remote_directory_scan___.json"
LOOKS = ("stat", "listdir", "scandir")      # only look at names and sizes


class Remote(object):
    def __init__(self, cx, files=None):
        self.cx = cx
        f = self.fs = fsenv.fs()
        f.mkdirs(ROOT)
        for p in sorted(files or {}):
            if files[p] is None:
                f.mkdirs(p)
            elif isinstance(files[p], tuple):
                f.put(p, b"")
                n = f.peek(p)
                n.kind, n.target = files[p]
            else:
                f.put(p, files[p])
        self.rd = RemoteDirectory(ROOT, DirectoryScanner(ROOT))
        self.st = Stack(cx, self.rd)
        f.statvfs = lambda path: self.vfs()

    def vfs(self):
        v = fsenv.Vfs()
        v.f_blocks, v.f_bfree, v.f_bavail, v.f_frsize, v.f_bsize = 1 << 40, 1 << 39, 1 << 39, 4096, 4096
        return v

    def ask(self, *fields):
        """Send one request; the packets sent in answer."""
        n = len(self.st.ws.sent)
        self.st.deliver(binary(*fields))
        return self.st.packets(n)

    def touched(self, since=0):
        return [(op, p) for op, p in self.fs.trace[since:] if op not in LOOKS]

    def tree(self, but=()):
        """{path: content} of all files, except below the directories `but`."""
        out = {}
        todo = [self.fs.root]
        while todo:
            d = todo.pop()
            for name in d.entries:
                n = d.entries[name]
                if n.kind == "dir":
                    if n.path() not in but:
                        todo.append(n)
                else:
                    out[n.path()] = n.target if n.kind == "link" else n.data
        return out


def directly_in(cx, path, directory):
    """Is path a file directly in directory?  (path is canonical)"""
    if not path.startswith(directory + "/"):
        return False
    return "/" not in path[len(directory) + 1:] and len(path) > len(directory) + 1


def under(path, directory):
    return path == directory or path.startswith(directory + "/")
