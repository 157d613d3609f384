"""Disk-step tracing, crash snapshots and fault injection for code that works below a scratch folder."""

from __future__ import annotations

import errno
import os
import shutil
import sys
from pathlib import Path

MUTATING = {
    "open", "write", "writelines", "flush", "close", "__exit__", "mkdir", "rename", "replace", "unlink", "remove", "rmdir",
    "truncate", "link", "symlink", "sendfile", "copy_file_range", "pwrite", "fsync", "ftruncate", "mknod",
}


def snapshot(root: Path) -> dict:
    """relative path -> bytes (file), None (folder) or ("link", target)."""
    out = {}
    stack = [str(root)]
    while stack:
        d = stack.pop()
        try:
            entries = list(os.scandir(d))
        except OSError:
            continue
        for e in entries:
            rel = os.path.relpath(e.path, root)
            if e.is_symlink():
                out[rel] = ("link", os.readlink(e.path))
            elif e.is_dir():
                out[rel] = None
                stack.append(e.path)
            else:
                with open(e.path, "rb") as f:
                    out[rel] = f.read()
    return out


def key(snap: dict):
    return tuple(sorted((k, v if v is None else repr(v)) for k, v in snap.items()))


def restore(root: Path, snap: dict) -> None:
    root = Path(root)
    if root.exists():
        shutil.rmtree(root)
    root.mkdir(parents=True)
    for rel in sorted(snap):
        v, p = snap[rel], root / rel
        if v is None:
            p.mkdir(parents=True, exist_ok=True)
        elif isinstance(v, tuple):
            p.parent.mkdir(parents=True, exist_ok=True)
            os.symlink(v[1], p)
        else:
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_bytes(v)


def torn(before: dict, after: dict) -> list[dict]:
    """States between two steps in which a file that grew has only part of its new bytes."""
    out = []
    had = {v for v in before.values() if isinstance(v, bytes)}
    for k, v in after.items():
        if isinstance(v, bytes) and v and v not in had:  # same bytes elsewhere before: a rename, which is atomic
            old = before.get(k, b"")
            if isinstance(old, bytes) and len(v) > len(old) and v.startswith(old):
                for cut in {len(old) + (len(v) - len(old)) // 2, len(v) - 1}:
                    if len(old) <= cut < len(v):
                        out.append({**after, k: v[:cut]})
    return out


class Steps:
    """Counts the file-system calls made inside the block; snapshots after each or raises before one of them."""

    def __init__(self, root: Path, record: bool = False, inject: int | None = None, exc=None, only=MUTATING):
        self.root, self.record, self.inject, self.exc, self.only = root, record, inject, exc, only
        self.count = 0
        self.states: list[dict] = []
        self.fired = None
        self._last = None

    def _is_fs(self, fn) -> bool:
        name = getattr(fn, "__name__", "")
        if name not in self.only:
            return False
        mod = getattr(fn, "__module__", None)
        if mod in ("posix", "_io", "io", "_shutil"):
            return True
        owner = getattr(fn, "__self__", None)
        return owner is not None and type(owner).__module__ in ("_io", "io")

    def _grab(self) -> None:
        snap = snapshot(self.root)
        k = key(snap)
        if k != self._last:
            if self.states:
                self.states.extend(torn(self.states[-1], snap))
            self.states.append(snap)
            self._last = k

    def _hook(self, frame, event, arg):
        if frame.f_globals.get("__name__") in ("subprocess", "selectors"):
            return  # pipes to a child process are no file-system steps
        if event == "c_call":
            if self._is_fs(arg):
                i = self.count
                self.count += 1
                if i == self.inject:
                    self.fired = getattr(arg, "__name__", "?")
                    sys.setprofile(None)
                    raise self.exc
        elif self.record and event in ("c_return", "c_exception") and self._is_fs(arg):
            self._grab()

    def __enter__(self):
        if self.record:
            self._grab()
        sys.setprofile(self._hook)
        return self

    def __exit__(self, *_):
        sys.setprofile(None)
        if self.record:
            self._grab()
        return False


def no_space():
    return OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
