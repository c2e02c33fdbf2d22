"""Simulated process environment: storage with crash semantics, clock, listing order, output.

The code under test runs in this process, in a real scratch directory, but every system call
of Python code on files below that directory passes through here.  Each one is a step at
which the plan may inject a fault:

  kill   the process dies; what reached the kernel stays, buffered data is lost
  power  the machine dies; per file only what was fsynced is certain, of the rest a prefix
         (the last write possibly torn) survives; of the not yet committed name changes
         (create, rename, remove) a prefix survives, whatever became of the data
  ENOSPC, EIO, EACCES ...  the call fails (writes may have been carried out in part)
  short  a write accepts only a part (legal for raw writes)
  vanish, isdir  the file is removed / replaced by a directory before it is opened

A fault is {"cls", "op", "n", "kind", "x", "len"}: it strikes the n-th to (n+len-1)-th
operation `op` on files of class `cls` ("*" matches any).  After a kill the file system is
frozen: nothing the dying process still does (finally blocks, flushes) has an effect.
"""
import atexit
import builtins
import collections
import contextlib
import datetime as _dt
import errno
import fcntl
import hashlib
import io
import os
import random
import shutil
import sys
import time as _time

from dst.core import REPO, Violation

ERRNO = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE,
         "EROFS": errno.EROFS, "EINTR": errno.EINTR, "ENOMEM": errno.ENOMEM}


class SimCrash(BaseException):
    """The simulated process or machine died."""


class Stuck(BaseException):
    """The code under test does not come to an end."""


class Inode:
    __slots__ = ("durable", "pending")

    def __init__(self, durable):
        self.durable = durable      # bytes certain to survive
        self.pending = []           # writes since: (offset, bytes) or ("size", n)

    def fsync(self):
        buf = bytearray(self.durable)
        for w in self.pending:
            apply_write(buf, w)
        self.durable, self.pending = bytes(buf), []


def apply_write(buf, w):
    if w[0] == "size":
        if w[1] < len(buf):
            del buf[w[1]:]
        else:
            buf.extend(bytes(w[1] - len(buf)))
    else:
        off, data = w
        if off > len(buf):
            buf.extend(bytes(off - len(buf)))
        buf[off:off + len(data)] = data


class SimFS:
    """One machine.  Survives the processes that run on it."""

    def __init__(self, root, seed, classify, stats, step_limit=400000):
        self.root = os.path.realpath(root)
        self.rng = random.Random(seed)
        self.seed = seed
        self.classify = classify
        self.stats = stats
        self.step_limit = step_limit
        self.names = {}            # path -> Inode
        self.durable_names = {}
        self.meta = []             # name changes not yet committed: ("link", p, inode) ("unlink", p)
        self.faults = []
        self.counts = collections.Counter()
        self.steps = 0
        self.dead = False
        self.clock = 1_600_000_000.0
        self.fds = {}
        self.listeners = []        # called with (event, path) after an effect
        self.out = []              # (clock, text) written to standard output
        self.out_encoding = "utf-8"
        self.hits = []             # (kind, operation, path) of the faults that struck
        self.jumps = {}            # step -> seconds the clock jumps by
        self.low = self.high = self.clock
        self.power_lost = False
        self.generation = 0
        self.trace = hashlib.blake2b(digest_size=8)

    # -- plan
    def begin(self, faults):
        """A new process starts."""
        self.generation += 1
        self.faults = faults
        self.counts = collections.Counter()
        self.steps = 0
        self.dead = False
        self.power_lost = False
        self.fds = {}
        self.out = []
        self.hits = []
        self.low = self.high = self.clock

    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.normpath(os.path.join(os.getcwd(), p))
        if p == self.root or p.startswith(self.root + os.sep):
            return p
        return None

    def tick(self, dt=None):
        dt = self.rng.choice([0.0001, 0.001, 0.02, 0.4]) if dt is None else dt
        self.clock += dt
        self.stats.sim_seconds += dt
        self.low, self.high = min(self.low, self.clock), max(self.high, self.clock)

    def step(self, op, path):
        """Account for one operation; returns the fault that strikes it, or None."""
        if self.dead:
            raise SimCrash()
        self.steps += 1
        self.stats.events += 1
        if self.steps > self.step_limit:
            self.dead = True
            raise Stuck()
        self.tick()
        if self.steps in self.jumps:
            self.clock += self.jumps[self.steps]
            self.tick(0)
            self.stats.fault("clock-jump-" + ("forward" if self.jumps[self.steps] > 0 else "back"))
        cls = self.classify(os.path.relpath(path, self.root))
        self.trace.update(f"{cls}{op};".encode())
        hit = None
        for key in ((cls, op), (cls, "*"), ("*", op), ("*", "*")):
            n = self.counts[key]
            self.counts[key] += 1
            for f in self.faults:
                if (f["cls"], f["op"]) == key and f["n"] <= n < f["n"] + f.get("len", 1):
                    hit = f
        if hit is not None and hit["kind"] == "ENOSPC" and op in ("open_r", "read", "list", "unlink"):
            hit = dict(hit, kind="EIO")     # these need no space
        if hit is not None:
            self.hits.append((hit["kind"], op, os.path.relpath(path, self.root)))
        return hit

    def crash(self, f):
        self.stats.fault(f["kind"])
        self.dead = True
        if f["kind"] == "power":
            self.power_lost = True
        raise SimCrash()

    def strike(self, f, path, allowed):
        """Carry out a fault before an operation.  Returns kinds the caller handles itself."""
        if f is None:
            return None
        k = f["kind"]
        if k in ("kill", "power"):
            if f.get("x", 0) < 0.5 or "after" not in allowed:
                self.crash(f)
            return "after"
        if k in ERRNO:
            self.stats.fault(f"{k}")
            raise OSError(ERRNO[k], os.strerror(ERRNO[k]) + " (simulated)", path)
        if k in allowed:
            return k
        return None

    def after(self, f, how):
        if how == "after":
            self.crash(f)

    def notify(self, event, path):
        for fn in self.listeners:
            fn(event, path)

    # -- names
    def adopt(self):
        """Everything now below root is durable (initial contents)."""
        self.names, self.durable_names, self.meta = {}, {}, []
        for d, _, files in os.walk(self.root):
            for f in files:
                p = os.path.join(d, f)
                with REAL.open(p, "rb") as fh:
                    self.names[p] = Inode(fh.read())
        self.durable_names = dict(self.names)

    def inode(self, path):
        return self.names.get(path)

    def link(self, path, inode):
        self.names[path] = inode
        self.meta.append(("link", path, inode))

    def unlink_name(self, path):
        self.names.pop(path, None)
        self.meta.append(("unlink", path))

    def commit_meta(self):
        for m in self.meta:
            self._apply_meta(self.durable_names, m)
        self.meta = []

    @staticmethod
    def _apply_meta(names, m):
        if m[0] == "link":
            names[m[1]] = m[2]
        elif m[0] == "unlink":
            names.pop(m[1], None)
        else:                       # rename
            if m[1] in names:
                names[m[2]] = names.pop(m[1])

    def recover(self):
        """After a power loss: write what survived into the real directory."""
        rng = self.rng
        names = dict(self.durable_names)
        keep = rng.choice([0, len(self.meta), rng.randint(0, len(self.meta))])
        for m in self.meta[:keep]:
            self._apply_meta(names, m)
        done = {}
        for path, node in names.items():
            if id(node) not in done:
                buf = bytearray(node.durable)
                mode = rng.random()
                n = len(node.pending)
                k = n if mode < 0.3 else 0 if mode < 0.6 else rng.randint(0, n)
                for w in node.pending[:k]:
                    apply_write(buf, w)
                if k < n and node.pending[k][0] != "size" and rng.random() < 0.7:
                    off, data = node.pending[k]
                    cut = rng.randint(0, len(data))
                    apply_write(buf, (off, data[:cut]))
                    if rng.random() < 0.3:   # the size was extended, the data never arrived
                        apply_write(buf, (off + cut, bytes(len(data) - cut)))
                    self.stats.fault("torn-write")
                if n and k == 0:
                    self.stats.fault("lost-write")
                done[id(node)] = bytes(buf)
        for path in list(self.names):
            if path not in names and os.path.isfile(path):
                REAL.remove(path)
        for path, node in names.items():
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if os.path.isdir(path):     # put there by a fault whose name change is lost
                os.rmdir(path)
            with REAL.open(path, "wb") as fh:
                fh.write(done[id(node)])
        if self.meta[keep:]:
            self.stats.fault("lost-name-change", len(self.meta) - keep)
        self.adopt()

    def settle(self):
        """After a kill or an exit: the kernel still has everything."""
        # contents and pending writes stay as they are; a later power loss may still lose them
        self.dead = False

    # -- environment
    @contextlib.contextmanager
    def process(self, faults, argv=None, listing=True):
        """Run code under test inside this block as one process."""
        self.begin(faults)
        patches = self._patches(listing)
        cwd = os.getcwd()
        old_argv, old_out = sys.argv, sys.stdout
        os.chdir(self.root)
        saved = []
        for obj, name, val in patches:
            saved.append((obj, name, getattr(obj, name)))
            setattr(obj, name, val)
        if argv is not None:
            sys.argv = argv
        sys.stdout = SimOut(self)
        self.at_exit = []
        try:
            try:
                yield
            except SimCrash:
                raise
            except BaseException:
                self.exit_functions()
                raise
            self.exit_functions()
        finally:
            for obj, name, val in reversed(saved):
                setattr(obj, name, val)
            sys.argv, sys.stdout = old_argv, old_out
            os.chdir(cwd)

    def exit_functions(self):
        """The process comes to its end by itself."""
        while self.at_exit and not self.dead:
            fn, a, kw = self.at_exit.pop()
            try:
                fn(*a, **kw)
            except Exception:       # the interpreter reports it and goes on
                pass

    def _patches(self, listing):
        fs = self
        import shutil as sh

        def register(fn, *a, **kw):
            if not sys._getframe(1).f_code.co_filename.startswith(REPO + os.sep):
                return REAL.register(fn, *a, **kw)      # a library that happens to be loaded now
            fs.at_exit.append((fn, a, kw))
            return fn

        def unregister(fn):
            fs.at_exit = [f for f in fs.at_exit if f[0] != fn]
            REAL.unregister(fn)

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
                     closefd=True, opener=None):
            if isinstance(file, int):
                if file in fs.fds:
                    return wrap(SimRaw(fs, file, mode.replace("t", "").replace("b", ""), fs.fds[file],
                                       closefd=closefd), mode, buffering, encoding, errors, newline)
                return REAL.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if opener is not None:
                flags = (os.O_RDWR if "+" in mode else os.O_RDONLY if "r" in mode else os.O_WRONLY) | os.O_CLOEXEC
                flags |= {"w": os.O_CREAT | os.O_TRUNC, "x": os.O_CREAT | os.O_EXCL,
                          "a": os.O_CREAT | os.O_APPEND}.get(mode.strip("+bt"), 0)
                return sim_open(opener(file, flags), mode, buffering, encoding, errors, newline)
            path = fs.inside(file)
            if path is None:
                return REAL.open(file, mode, buffering, encoding, errors, newline, closefd)
            raw = fs.open_raw(path, mode.replace("t", "").replace("b", ""))
            return wrap(raw, mode, buffering, encoding, errors, newline)

        def os_open(path, flags, mode=0o777, *, dir_fd=None):
            p = fs.inside(path) if dir_fd is None else None
            if p is None:
                return REAL.os_open(path, flags, mode, dir_fd=dir_fd)
            writing = flags & (os.O_WRONLY | os.O_RDWR)
            f = fs.step("open_w" if writing else "open_r", p)
            fs.strike(f, p, ())
            existed = os.path.exists(p)
            fd = REAL.os_open(p, flags, mode)
            if os.path.isdir(p):
                fs.fds[fd] = p
                return fd
            fs.opened(p, existed, flags & os.O_TRUNC, writing)
            fs.fds[fd] = p
            return fd

        def os_write(fd, data):
            if fd not in fs.fds:
                return REAL.os_write(fd, data)
            at_end = fcntl.fcntl(fd, fcntl.F_GETFL) & os.O_APPEND
            off = os.fstat(fd).st_size if at_end else os.lseek(fd, 0, os.SEEK_CUR)
            return fs.write(fd, fs.fds[fd], bytes(data), off, REAL.os_write)

        def os_close(fd):
            fs.fds.pop(fd, None)
            return REAL.os_close(fd)

        def os_fsync(fd):
            fd = fd if isinstance(fd, int) else fd.fileno()
            if fd not in fs.fds:
                return REAL.fsync(fd)
            fs.fsync(fs.fds[fd])

        def replace(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
            a, b = fs.inside(src), fs.inside(dst)
            if a is None and b is None:
                return REAL.replace(src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
            if a is None or b is None:      # outside is another file system
                raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), src, None, dst)
            f = fs.step("replace", b)
            how = fs.strike(f, b, ("after",))
            REAL.replace(src, dst)
            if os.path.isdir(b):
                for p in [p for p in fs.names if p.startswith(a + os.sep)]:
                    fs.names[b + p[len(a):]] = fs.names.pop(p)
                    fs.meta.append(("rename", p, b + p[len(a):]))
            else:
                node = fs.names.pop(a, None) or Inode(b"")
                fs.names[b] = node
                fs.meta.append(("rename", a, b))
            fs.notify("name", b)
            fs.after(f, how)

        def link(src, dst, **kw):
            a, b = fs.inside(src), fs.inside(dst)
            if a is None or b is None:
                return REAL.link(src, dst, **kw)
            f = fs.step("replace", b)
            how = fs.strike(f, b, ("after",))
            REAL.link(src, dst)
            fs.link(b, fs.names[a])
            fs.notify("name", b)
            fs.after(f, how)

        def remove(path, *, dir_fd=None):
            p = fs.inside(path) if dir_fd is None else None
            if p is None:
                return REAL.remove(path, dir_fd=dir_fd)
            f = fs.step("unlink", p)
            how = fs.strike(f, p, ("after",))
            REAL.remove(p)
            fs.unlink_name(p)
            fs.notify("unlink", p)
            fs.after(f, how)

        def truncate(path, length):
            p = fs.inside(path) if not isinstance(path, int) else fs.fds.get(path)
            if p is None:
                return REAL.truncate(path, length)
            f = fs.step("write", p)
            fs.strike(f, p, ())
            REAL.truncate(path, length)
            fs.names[p].pending.append(("size", length))
            fs.notify("write", p)

        def order(names):
            return sorted(names, key=lambda n: hashlib.blake2b(f"{fs.seed}/{n}".encode("utf-8", "surrogatepass")).digest())

        def listdir(path="."):
            p = fs.inside(path) if path is not None and not isinstance(path, int) else None
            if p is None:
                return REAL.listdir(path)
            f = fs.step("list", p)
            fs.strike(f, p, ())
            return order(REAL.listdir(path))

        class Scan:
            def __init__(self, it):
                entries = {e.name: e for e in it}
                self.it = iter([entries[n] for n in order(entries)])

            def __iter__(self):
                return self.it

            def __next__(self):
                return next(self.it)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def close(self):
                pass

        def scandir(path="."):
            p = fs.inside(path) if path is not None and not isinstance(path, int) else None
            if p is None:
                return REAL.scandir(path)
            f = fs.step("list", p)
            fs.strike(f, p, ())
            with REAL.scandir(path) as it:
                return Scan(list(it))

        class SimDatetime(_dt.datetime):
            @classmethod
            def now(cls, tz=None):
                fs.tick(0.0001)
                return cls.fromtimestamp(fs.clock, tz)

            @classmethod
            def utcnow(cls):
                fs.tick(0.0001)
                return cls.utcfromtimestamp(fs.clock)

            @classmethod
            def today(cls):
                return cls.now()

        def sim_time():
            fs.tick(0.0001)
            return fs.clock

        def sleep(s):
            if fs.dead:
                raise SimCrash()
            fs.steps += 1
            if fs.steps > fs.step_limit:
                fs.dead = True
                raise Stuck()
            fs.tick(max(0, s))

        def localtime(secs=None):
            return REAL.localtime(fs.clock if secs is None else secs)

        def gmtime(secs=None):
            return REAL.gmtime(fs.clock if secs is None else secs)

        def strftime(fmt, t=None):
            return REAL.strftime(fmt, localtime() if t is None else t)

        res = [(builtins, "open", sim_open), (io, "open", sim_open), (os, "open", os_open),
               (os, "write", os_write), (os, "close", os_close), (os, "fsync", os_fsync),
               (os, "fdatasync", os_fsync), (os, "replace", replace), (os, "rename", replace),
               (os, "link", link), (os, "remove", remove), (os, "unlink", remove),
               (os, "truncate", truncate), (os, "ftruncate", truncate),
               (os, "listdir", listdir), (os, "scandir", scandir),
               (_dt, "datetime", SimDatetime), (_time, "time", sim_time),
               (_time, "time_ns", lambda: int(sim_time() * 1e9)), (_time, "sleep", sleep),
               (_time, "localtime", localtime), (_time, "gmtime", gmtime), (_time, "strftime", strftime),
               (sh, "_USE_CP_SENDFILE", False), (atexit, "register", register), (atexit, "unregister", unregister)]
        if hasattr(os, "sync"):
            res.append((os, "sync", lambda: fs.sync_all()))
        if "torch" in sys.modules:
            import torch
            real_save = torch.save

            def save(obj, f, *a, **kw):
                if isinstance(f, (str, os.PathLike)) and fs.inside(f):
                    with sim_open(f, "wb") as fh:
                        return real_save(obj, fh, *a, **kw)
                return real_save(obj, f, *a, **kw)
            res.append((torch, "save", save))
        return res

    def sync_all(self):
        for node in self.names.values():
            node.fsync()
        self.commit_meta()

    # -- file operations
    def open_raw(self, path, mode):
        writing = any(c in mode for c in "wax+")
        f = self.step("open_w" if writing else "open_r", path)
        k = self.strike(f, path, ("vanish", "isdir", "after"))
        if k == "vanish" and os.path.isfile(path):
            self.stats.fault("vanish")
            REAL.remove(path)
            self.unlink_name(path)
        if k == "isdir" and os.path.isfile(path):
            self.stats.fault("isdir")
            REAL.remove(path)
            self.unlink_name(path)
            os.mkdir(path)
        existed = os.path.exists(path)
        raw = SimRaw(self, path, mode, path)
        if not os.path.isdir(path):
            self.opened(path, existed, "w" in mode, writing)
        if k == "after":
            self.crash(f)
        return raw

    def opened(self, path, existed, trunc, writing):
        if path not in self.names:
            node = Inode(b"")
            if existed:   # appeared by other means (copied in by native code)
                with REAL.open(path, "rb") as fh:
                    node = Inode(b"")
                    node.pending.append((0, fh.read()))
            self.link(path, node)
            if writing:
                self.notify("name", path)
        elif trunc and writing:
            self.names[path].pending.append(("size", 0))
            self.notify("name", path)
        if writing and (trunc or not existed):
            os.utime(path, (self.clock, self.clock))

    def write(self, fd, path, data, off, do):
        f = self.step("write", path)
        node = self.names.get(path)
        if f is not None:
            k, x = f["kind"], f.get("x", 0.0)
            n = int(len(data) * x)
            if k in ("kill", "power") or k == "ENOSPC":
                if n and (k != "ENOSPC" or x < 0.5):
                    do(fd, data[:n])
                    if node is not None:
                        node.pending.append((off, data[:n]))
                    self.stats.fault("partial-write")
                    self.notify("write", path)
                    if k == "ENOSPC":
                        self.stats.fault("short-write")
                        return n     # the next call gets the error if the fault lasts
                if k != "ENOSPC":
                    self.crash(f)
            if k == "short" and len(data) > 1:
                self.stats.fault("short-write")
                n = max(1, n)
                do(fd, data[:n])
                if node is not None:
                    node.pending.append((off, data[:n]))
                self.notify("write", path)
                return n
            if k in ERRNO:
                self.stats.fault(k)
                raise OSError(ERRNO[k], os.strerror(ERRNO[k]) + " (simulated)", path)
        n = do(fd, data)
        if node is not None:
            node.pending.append((off, bytes(data[:n])))
        if os.path.exists(path):
            os.utime(path, (self.clock, self.clock))
        self.notify("write", path)
        return n

    def fsync(self, path):
        f = self.step("fsync", path)
        how = self.strike(f, path, ("after",))
        if os.path.isdir(path):
            self.commit_meta()
        else:
            node = self.names.get(path)
            if node is not None:
                node.fsync()
            self.commit_meta()
        self.after(f, how)


class SimRaw(io.FileIO):
    """Raw file whose calls are steps of the simulation."""

    def __init__(self, fs, file, mode, path, closefd=True):
        self._fs = None
        super().__init__(file, mode, closefd=closefd)
        self._fs, self._path, self._gen = fs, path, fs.generation
        fs.fds[self.fileno()] = path

    def write(self, data):
        fs = self._fs
        if fs.dead or self._gen != fs.generation:
            return len(data)          # buffered data of a dead process: lost
        data = bytes(data)
        if fcntl.fcntl(self.fileno(), fcntl.F_GETFL) & os.O_APPEND:
            off = os.fstat(self.fileno()).st_size
        else:
            off = self.tell()
        return fs.write(self.fileno(), self._path, data, off, lambda fd, d: super(SimRaw, self).write(d))

    def _read_step(self):
        if not self._fs.dead and self._gen == self._fs.generation:
            f = self._fs.step("read", self._path)
            self._fs.strike(f, self._path, ())

    def readinto(self, b):
        self._read_step()
        return super().readinto(b)

    def read(self, n=-1):
        self._read_step()
        return super().read(n)

    def readall(self):
        self._read_step()
        return super().readall()

    def truncate(self, size=None):
        fs = self._fs
        if fs.dead or self._gen != fs.generation:
            return 0
        size = self.tell() if size is None else size
        f = fs.step("write", self._path)
        fs.strike(f, self._path, ())
        r = super().truncate(size)
        if self._path in fs.names:
            fs.names[self._path].pending.append(("size", size))
        fs.notify("write", self._path)
        return r

    def close(self):
        if self._fs is not None and not self.closed:
            if self._gen == self._fs.generation:
                self._fs.fds.pop(self.fileno(), None)
        super().close()


def wrap(raw, mode, buffering, encoding, errors, newline):
    text = "b" not in mode
    try:
        if buffering == 0:
            if text:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = io.DEFAULT_BUFFER_SIZE if buffering in (-1, 1) else buffering
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif any(c in mode for c in "wax"):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if not text:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        t.mode = mode
        return t
    except BaseException:
        raw.close()
        raise


class SimOut(io.TextIOBase):
    """Standard output of the simulated process."""

    def __init__(self, fs):
        self.fs = fs

    encoding = property(lambda self: self.fs.out_encoding)
    errors = "strict"

    def write(self, s):
        if self.fs.dead:
            return len(s)
        s.encode(self.fs.out_encoding)      # what the terminal cannot show is an error, as in reality
        self.fs.tick(0.0001)
        self.fs.out.append((self.fs.clock, s))
        self.fs.notify("out", None)
        return len(s)

    def flush(self):
        pass

    def writable(self):
        return True


class REAL:
    register = staticmethod(atexit.register)
    unregister = staticmethod(atexit.unregister)
    open = staticmethod(io.open)
    os_open = staticmethod(os.open)
    os_write = staticmethod(os.write)
    os_close = staticmethod(os.close)
    fsync = staticmethod(os.fsync)
    replace = staticmethod(os.replace)
    link = staticmethod(os.link)
    remove = staticmethod(os.remove)
    truncate = staticmethod(os.truncate)
    listdir = staticmethod(os.listdir)
    scandir = staticmethod(os.scandir)
    localtime = staticmethod(_time.localtime)
    gmtime = staticmethod(_time.gmtime)
    strftime = staticmethod(_time.strftime)


def read(path):
    with REAL.open(path, "rb") as f:
        return f.read()


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with REAL.open(path, "wb") as f:
        f.write(data)


def rmtree(path):
    shutil.rmtree(path, ignore_errors=True)


__all__ = ["SimFS", "SimCrash", "Stuck", "Violation", "read", "write", "rmtree"]
