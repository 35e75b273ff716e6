"""Snapshots of directory trees, and the event log written by preload/fslog.c."""
import hashlib, os, stat
from . import build


def snap(root, skip=()):
    """{relative path: facts}: everything a reader of the tree could notice, except link counts, atime and ctime."""
    out = {}
    root = root.rstrip("/")
    skip = set(os.path.abspath(s) for s in skip)

    def one(p):
        s = os.lstat(p)
        if stat.S_ISLNK(s.st_mode):
            c = ("l", os.readlink(p))
        elif stat.S_ISREG(s.st_mode):
            with open(p, "rb") as f:
                c = ("f", s.st_size, hashlib.sha1(f.read()).hexdigest())
        else:
            c = ("d" if stat.S_ISDIR(s.st_mode) else "o",)
        return c + (stat.S_IMODE(s.st_mode), s.st_mtime_ns, s.st_ino, s.st_uid, s.st_gid)

    def walk(d):
        if os.path.abspath(d) in skip:
            return
        out[os.path.relpath(d, root)] = one(d)
        for n in sorted(os.listdir(d)):
            p = os.path.join(d, n)
            if os.path.abspath(p) in skip:
                continue
            if os.path.isdir(p) and not os.path.islink(p):
                walk(p)
            else:
                out[os.path.relpath(p, root)] = one(p)
    walk(root)
    return out


def diff(a, b):
    d = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            d.append("%s: %s -> %s" % (k, a.get(k, "absent"), b.get(k, "absent")))
    return d


def env(log, act=None):
    e = {"LD_PRELOAD": build.preload("fslog"), "MXLOG": log}
    if act:
        e["MXACT"] = act
    return e


class Ev:
    __slots__ = ("ns", "pid", "op", "res", "err", "p1", "p2", "seq")

    def __repr__(self):
        return "%d pid %d %s -> %d%s %s%s" % (self.ns, self.pid, self.op, self.res, " errno %d" % self.err if self.err else "", self.p1,
                                             " => " + self.p2 if self.p2 else "")


def read_log(path):
    out = []
    if not os.path.exists(path):
        return out
    with open(path, "rb") as f:
        for i, line in enumerate(f.read().decode("latin-1").split("\n")):
            w = line.split(" ", 5)
            if len(w) < 6:
                continue
            e = Ev()
            e.ns, e.pid, e.op, e.res, e.err = int(w[0]), int(w[1]), w[2], int(w[3]), int(w[4])
            e.p1, _, e.p2 = w[5].partition("\t")
            e.seq = i
            out.append(e)
    return out


WRITE_OPS = ("openw", "openx", "link", "symlink", "unlink", "rename", "mkdir", "rmdir", "truncate", "ftruncate", "chmod", "utime", "mmapw")


def write_targets(e):
    """Paths a successful event creates, removes or changes."""
    if e.res < 0 or e.op not in WRITE_OPS:
        return []
    if e.op in ("link", "symlink"):
        return [e.p2]
    if e.op == "rename":
        return [e.p1, e.p2]
    return [e.p1]
