"""The simulated disk: fault injection and a page-cache model at the system-call boundary.

Real system calls run in a scratch directory; the native shim (native/simdisk.c, preloaded)
reports every one of them and asks what to do with it.  On top of that this module keeps what a
real disk may forget: data written since the last fsync of a file, and directory changes since
the last directory sync.
"""

from __future__ import annotations

import ctypes
import errno
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), ".build")
SO = os.path.join(BUILD, "simdisk.so")

OPEN, READ, WRITE, FSYNC, CLOSE, RENAME, UNLINK, TRUNC, MKDIR, CHMOD, LINK, STAT = range(1, 13)
NAMES = {OPEN: "open", READ: "read", WRITE: "write", FSYNC: "fsync", CLOSE: "close", RENAME: "rename",
         UNLINK: "unlink", TRUNC: "truncate", MKDIR: "mkdir", CHMOD: "chmod", LINK: "link"}
_D = ctypes.CFUNCTYPE(ctypes.c_long, ctypes.c_int, ctypes.c_char_p, ctypes.c_char_p, ctypes.c_long)
_N = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_void_p, ctypes.c_long)


def build():
    """Compile the shim (called before workers start)."""
    src = os.path.join(HERE, "native", "simdisk.c")
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(SO) and os.path.getmtime(SO) >= os.path.getmtime(src):
        return
    tmp = f"{SO}.{os.getpid()}"
    subprocess.check_call(["gcc", "-O1", "-shared", "-fPIC", "-o", tmp, src, "-ldl"])
    os.replace(tmp, SO)


def _apply(data, pending):
    b = bytearray(data)
    for off, chunk in pending:
        if chunk is None:  # truncate to `off`
            del b[off:]
            b.extend(b"\0" * (off - len(b)))
            continue
        if len(b) < off:
            b.extend(b"\0" * (off - len(b)))
        b[off:off + len(chunk)] = chunk
    return bytes(b)


class Disk:
    def __init__(self):
        if SO not in os.environ.get("LD_PRELOAD", ""):
            raise ImportError("the disk shim is not preloaded")
        self.so = ctypes.CDLL(SO)
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="simdisk-"))
        self._d = _D(self._decide)
        self._n = _N(self._done)
        self.plan = None        # plan(op, path, path2, arg) -> int
        self.errors = []
        self.reset_model()
        self.so.sim_disk_start(self.root.encode() + b"/", self._d, self._n)

    def close(self):
        self.so.sim_disk_stop()
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, *parts):
        return os.path.join(self.root, *parts)

    # ------------------------------------------------------------------ model
    def reset_model(self):
        self.ns = {}            # path -> file id, as the running system sees it
        self.durable_ns = {}
        self.meta = []          # directory changes not synced yet
        self.files = {}         # id -> [durable bytes, pending writes]
        self.nid = 0
        self.count = 0
        self._mid = {}

    def _new(self):
        self.nid += 1
        self.files[self.nid] = [b"", []]
        return self.nid

    def _decide(self, op, a, b, arg):
        try:
            a = a.decode(errors="surrogateescape")
            b = b.decode(errors="surrogateescape") if b else None
            r = self.plan(op, a, b, arg) if self.plan else 0
            if op == OPEN and r >= 0:
                self._mid[a] = os.path.lexists(a)
            return r
        except BaseException as e:  # noqa: BLE001 - nothing may cross the C boundary
            self.errors.append(repr(e))
            return 0

    def _done(self, op, a, fd, res, buf, off):
        try:
            if res < 0:
                return
            a = a.decode(errors="surrogateescape")
            if op == OPEN:
                if off & os.O_DIRECTORY or os.path.isdir(a):
                    return
                if not self._mid.get(a, True) or a not in self.ns:
                    self.ns[a] = self._new()
                    self.meta.append(("link", a, self.ns[a]))
                elif off & os.O_TRUNC:
                    self.files[self.ns[a]][1].append((0, None))
            elif op == WRITE:
                if a in self.ns and res:
                    self.files[self.ns[a]][1].append((off, ctypes.string_at(buf, res)))
            elif op == TRUNC:
                if a in self.ns:
                    self.files[self.ns[a]][1].append((off, None))
            elif op == FSYNC:
                if a == "*" or os.path.isdir(a):
                    self._sync_meta()
                if a == "*":
                    for f in self.files.values():
                        f[0], f[1] = _apply(f[0], f[1]), []
                elif a in self.ns:
                    f = self.files[self.ns[a]]
                    f[0], f[1] = _apply(f[0], f[1]), []
            elif op == RENAME:
                b = ctypes.string_at(buf).decode(errors="surrogateescape")
                if a in self.ns:
                    self.ns[b] = self.ns.pop(a)
                    self.meta.append(("rename", a, b))
            elif op == LINK:
                b = ctypes.string_at(buf).decode(errors="surrogateescape")
                if a in self.ns:
                    self.ns[b] = self.ns[a]
                    self.meta.append(("link", b, self.ns[a]))
            elif op == UNLINK:
                if self.ns.pop(a, None) is not None:
                    self.meta.append(("unlink", a, None))
        except BaseException as e:  # noqa: BLE001
            self.errors.append(repr(e))

    def _replay_meta(self, ns, ops):
        for kind, a, b in ops:
            if kind == "link":
                ns[a] = b
            elif kind == "rename":
                if a in ns:
                    ns[b] = ns.pop(a)
            else:
                ns.pop(a, None)
        return ns

    def _sync_meta(self):
        self.durable_ns = self._replay_meta(self.durable_ns, self.meta)
        self.meta = []

    def power_loss(self, r):
        """Forget a random part of what was never synced; returns counts of what was lost."""
        stats = {}
        k = r.randrange(len(self.meta) + 1) if r.random() < 0.6 else len(self.meta)
        if k < len(self.meta):
            stats["lost_directory_changes"] = len(self.meta) - k
        ns = self._replay_meta(dict(self.durable_ns), self.meta[:k])
        images = {}
        style = r.randrange(4)
        for fid in set(ns.values()):
            data, pending = self.files[fid]
            keep = []
            for i, (off, chunk) in enumerate(pending):
                if style == 0 or (style == 1 and r.random() < 0.5):
                    stats["lost_writes"] = stats.get("lost_writes", 0) + 1
                    if r.random() < 0.5 and chunk:   # size reached the disk, data did not
                        keep.append((off, b"\0" * len(chunk)))
                    continue
                if style == 2 and chunk and r.random() < 0.4:
                    stats["torn_writes"] = stats.get("torn_writes", 0) + 1
                    chunk = chunk[: r.randrange(len(chunk))]
                keep.append((off, chunk))
            images[fid] = _apply(data, keep)
        stop = self.plan
        self.plan = None
        for base, _, names in os.walk(self.root):
            for n in names:
                os.unlink(os.path.join(base, n))
        self.reset_model()
        ids = {}
        for p, fid in ns.items():
            with open(p, "wb") as f:
                f.write(images[fid])
            ids.setdefault(fid, self.ns.get(p))
        # Everything on the disk now is durable.
        for f in self.files.values():
            f[0], f[1] = _apply(f[0], f[1]), []
        self._sync_meta()
        self.plan = stop
        return stats

    def check_model(self):
        """The model must agree with what is really there (a simulator self-check)."""
        for p, fid in self.ns.items():
            with open(p, "rb") as f:
                real = f.read()
            data, pending = self.files[fid]
            if _apply(data, pending) != real:
                return f"{p}: model and disk differ"
        return self.errors[0] if self.errors else None


class Fault:
    """One fault plan for one call of the code under test."""

    def __init__(self, spec, total, on=None):
        self.spec, self.on = spec, on
        kind = spec["kind"] if spec else None
        self.kind = kind
        self.at = max(1, min(total, 1 + int(spec["at"] * total))) if spec and "at" in spec else None
        if spec and spec.get("tail") is not None:
            self.at = max(1, total - spec["tail"])
        self.n = 0
        self.fired = {}
        self.frozen = False
        self.full = False

    def _hit(self, name):
        self.fired[name] = self.fired.get(name, 0) + 1

    def __call__(self, op, a, b, arg):
        if self.on:
            self.on(op, a)
        self.n += 1
        if self.frozen:
            return -errno.EIO
        s = self.spec
        if not s:
            return 0
        if self.kind == "short_everywhere":
            if op in (READ, WRITE) and arg > 1:
                self._hit("short_" + NAMES[op])
                return 1 + (self.n * 7919 + s["n"]) % min(arg, s["n"])
            return 0
        if self.full and op in (WRITE, TRUNC, MKDIR):
            self._hit("enospc")
            return -errno.ENOSPC
        if self.n != self.at:
            return 0
        if self.kind == "crash":
            self.frozen = True
            self._hit("crash_at_" + NAMES[op])
            if op == WRITE and arg > 1 and s.get("torn"):
                self._hit("torn_write")
                return max(1, int(arg * s["torn"]))
            return -errno.EIO
        if self.kind == "full":
            self.full = True
            self._hit("disk_full")
            if op == WRITE and arg > 1 and s.get("torn"):
                return max(1, int(arg * s["torn"]))
            return -errno.ENOSPC if op in (WRITE, OPEN, MKDIR, TRUNC) else 0
        if self.kind == "err":
            self._hit(f"{s['errno'].lower()}_at_{NAMES[op]}")
            return -getattr(errno, s["errno"])
        if self.kind == "short" and op in (READ, WRITE) and arg > 1:
            self._hit("short_" + NAMES[op])
            return max(1, int(arg * s["torn"]))
        return 0
