"""
A disk which loses what was not made durable.

File operations of the code under test work on a scratch directory.  Writes, truncations, renames and removals are
counted; at a drawn operation the machine stops (the process is killed, or the power fails) or the operation fails.
After a power failure data which was not synced and directory changes which were not synced may be missing.
"""
import builtins
import errno
import io
import os
import random

_real = {"open": builtins.open, "ioopen": io.open, "fsync": os.fsync, "replace": os.replace, "rename": os.rename,
         "unlink": os.unlink, "remove": os.remove}
_disk = None


class Crash(BaseException):
    """the process ends here"""


class Raw(io.RawIOBase):
    def __init__(self, disk, path, mode):
        self.disk, self.path = disk, path
        flags = os.O_RDWR if "+" in mode else os.O_WRONLY
        if "w" in mode:
            flags |= os.O_CREAT | os.O_TRUNC
        if "a" in mode:
            flags |= os.O_CREAT | os.O_APPEND
        if "x" in mode:
            flags |= os.O_CREAT | os.O_EXCL
        disk.tick("open")
        new = not os.path.exists(path)
        self.fd = os.open(path, flags, 0o644)
        if new:
            disk.journal.append(("link", path, disk.inode(path, fresh=True)))
        elif "w" in mode:
            disk.inode(path)
        self.mode = mode

    def readable(self):
        return "+" in self.mode

    def writable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def seek(self, off, how=0):
        return os.lseek(self.fd, off, how)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        os.ftruncate(self.fd, self.tell() if size is None else size)

    def readinto(self, b):
        d = os.read(self.fd, len(b))
        b[:len(d)] = d
        return len(d)

    def write(self, b):
        if self.disk.dead:
            return len(b)
        b = bytes(b)
        try:
            self.disk.tick("write")
        except (Crash, OSError):
            os.write(self.fd, b[:self.disk.rng.randint(0, len(b))])
            raise
        return os.write(self.fd, b)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                os.close(self.fd)


class Inode(object):
    def __init__(self, synced):
        self.synced = synced        # durable content, None if there is none


class Disk(object):
    """faults: {operation number: "kill" | "power" | "full" | "io"}"""

    def __init__(self, root, faults, seed, st):
        self.root = os.path.realpath(root)
        self.faults = {int(k): v for k, v in faults.items()}
        self.rng = random.Random(seed)
        self.st = st
        self.n = 0
        self.dead = False
        self.how = None
        self.fired = []
        self.settle()

    def settle(self):
        """everything there is now is durable"""
        self.inodes = {}
        for f in os.listdir(self.root):
            p = os.path.join(self.root, f)
            if os.path.isfile(p):
                self.inodes[p] = Inode(self.read(p))
        self.durable = dict(self.inodes)     # directory on the medium
        self.journal = []
        self.saved = 0                       # journal entries known to be on the medium

    def read(self, p):
        with _real["open"](p, "rb") as fh:
            return fh.read()

    def mine(self, path):
        if isinstance(path, bytes):
            path = path.decode()
        if not isinstance(path, (str, os.PathLike)):
            return None
        p = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(path))), os.path.basename(path))
        return p if p.startswith(self.root + os.sep) else None

    def inode(self, p, fresh=False):
        if fresh or p not in self.inodes:
            self.inodes[p] = Inode(None)
        return self.inodes[p]

    def tick(self, what):
        if self.dead:
            raise Crash(what)
        self.n += 1
        f = self.faults.pop(self.n, None)
        if f is None:
            return
        self.fired.append((self.n, f, what))
        self.st.fault("disk-" + f)
        self.st.ev("disk", self.n, f, what)
        if f in ("kill", "power"):
            self.crash(f)
            raise Crash(what)
        raise OSError(errno.ENOSPC if f == "full" else errno.EIO, "simulated disk error")

    def crash(self, how):
        self.dead = True
        self.how = how

    # ------------------------------------------------------------ intercepted calls
    def open(self, file, mode, buffering, encoding, errors, newline):
        raw = Raw(self, self.mine(file), mode)
        if "b" in mode:
            return io.BufferedRandom(raw) if "+" in mode else io.BufferedWriter(raw)
        b = io.BufferedRandom(raw) if "+" in mode else io.BufferedWriter(raw)
        return io.TextIOWrapper(b, encoding or "utf-8", errors, newline)

    def fsync(self, fd):
        fd = fd if isinstance(fd, int) else fd.fileno()
        p = os.readlink("/proc/self/fd/%d" % fd)
        if p != self.root and not p.startswith(self.root + os.sep):
            return _real["fsync"](fd)
        self.tick("fsync")
        if p != self.root:
            self.inode(p).synced = self.read(p)
        # a file system commits its journal with it
        self.saved = len(self.journal)

    def replace(self, a, b):
        self.tick("rename")
        _real["replace"](a, b)
        ino = self.inode(a)
        self.inodes.pop(a, None)
        self.inodes[b] = ino
        self.journal.append(("rename", a, b, ino))

    def unlink(self, p):
        self.tick("unlink")
        _real["unlink"](p)
        self.inodes.pop(p, None)
        self.journal.append(("unlink", p))

    # ------------------------------------------------------------ after the crash
    def recover(self):
        """what the next start finds"""
        if self.how == "power":
            self.lose()
        self.dead, self.how = False, None
        self.settle()

    def lose(self):
        cut = self.rng.randint(self.saved, len(self.journal))
        d = dict(self.durable)
        for j in self.journal[:cut]:
            if j[0] == "link":
                d[j[1]] = j[2]
            elif j[0] == "rename":
                d.pop(j[1], None)
                d[j[2]] = j[3]
            else:
                d.pop(j[1], None)
        now = {id(i): self.read(p) for p, i in self.inodes.items() if os.path.exists(p)}
        # files made behind the back of this model count as not synced
        for f in os.listdir(self.root):
            p = os.path.join(self.root, f)
            if os.path.isfile(p):
                if p not in self.inodes and self.rng.random() < 0.5:
                    i = Inode(None)
                    now[id(i)] = self.read(p)
                    d[p] = i
                _real["unlink"](p)
        for p, i in d.items():
            cur = now.get(id(i), i.synced or b"")
            if i.synced == cur:
                data = cur
            else:
                # some state between the synced one and the present one
                k = self.rng.randint(0, 3)
                if k == 0:
                    data = i.synced or b""
                elif k == 1:
                    data = b""
                elif k == 2:
                    data = cur[:self.rng.randint(0, len(cur))]
                else:
                    data = cur
                if data != cur:
                    self.st.fault("disk-lost-write")
            with _real["open"](p, "wb") as fh:
                fh.write(data)
        if cut < len(self.journal):
            self.st.fault("disk-lost-name")


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = _disk
    if d is not None and any(c in mode for c in "wax+") and opener is None and d.mine(file):
        return d.open(file, mode, buffering, encoding, errors, newline)
    return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)


def _fsync(fd):
    return _disk.fsync(fd) if _disk is not None else _real["fsync"](fd)


def _two(name):
    def f(a, b, **k):
        if _disk is not None and not k and _disk.mine(a) and _disk.mine(b):
            return _disk.replace(_disk.mine(a), _disk.mine(b))
        return _real[name](a, b, **k)
    return f


def _one(name):
    def f(p, **k):
        if _disk is not None and not k and _disk.mine(p):
            return _disk.unlink(_disk.mine(p))
        return _real[name](p, **k)
    return f


class mounted(object):
    def __init__(self, disk):
        self.disk = disk

    def __enter__(self):
        global _disk
        _disk = self.disk
        builtins.open = io.open = _open
        os.fsync, os.replace, os.rename = _fsync, _two("replace"), _two("rename")
        os.unlink, os.remove = _one("unlink"), _one("remove")
        return self.disk

    def __exit__(self, *a):
        global _disk
        _disk = None
        builtins.open, io.open = _real["open"], _real["ioopen"]
        os.fsync, os.replace, os.rename = _real["fsync"], _real["replace"], _real["rename"]
        os.unlink, os.remove = _real["unlink"], _real["remove"]
