"""Fork helpers and a digest of the process-wide state the library can touch."""

from __future__ import annotations

import hashlib
import os
import pickle
import random
import sys
import types

import numpy as np
import scipy.signal  # noqa: F401  (imported once here, not in every forked child)
import torch


def in_fork(fn, *args):
    """Run fn(*args) in a forked child and return its (picklable) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ("ok", fn(*args))
            except BaseException as exc:  # noqa: BLE001
                import traceback

                out = ("err", f"{type(exc).__name__}: {exc}\n{traceback.format_exc(limit=-5)}")
            with os.fdopen(w, "wb") as fh:
                pickle.dump(out, fh)
        except BaseException:  # noqa: BLE001
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
    finally:
        import signal

        try:
            done, _ = os.waitpid(pid, os.WNOHANG)
            if not done:
                if sys.exc_info()[0] is not None:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    if not data:
        raise RuntimeError("forked child died without an answer")
    kind, val = pickle.loads(data)
    if kind == "err":
        raise RuntimeError("in forked child: " + val)
    return val


def feed(h, obj, depth=0):
    if depth > 6:
        h.update(b"...")
        return
    if torch.is_tensor(obj):
        h.update(str((tuple(obj.shape), obj.dtype, obj.device)).encode())
        h.update(obj.detach().cpu().contiguous().numpy().tobytes())
    elif isinstance(obj, np.ndarray):
        h.update(str((obj.shape, obj.dtype)).encode() + np.ascontiguousarray(obj).tobytes())
    elif isinstance(obj, dict):
        h.update(b"{")
        for k in sorted(obj, key=repr):
            h.update(repr(k).encode())
            feed(h, obj[k], depth + 1)
        h.update(b"}")
    elif isinstance(obj, (list, tuple)):
        h.update(b"[")
        for x in obj:
            feed(h, x, depth + 1)
        h.update(b"]")
    elif isinstance(obj, (set, frozenset)):
        h.update(repr(sorted(map(repr, obj))).encode())
    elif isinstance(obj, (str, bytes, int, float, bool, type(None), torch.dtype, torch.device)):
        h.update(repr(obj).encode())
    elif hasattr(obj, "__dataclass_fields__"):
        h.update(type(obj).__name__.encode())
        for f in obj.__dataclass_fields__:
            feed(h, getattr(obj, f, None), depth + 1)
    else:
        h.update(type(obj).__name__.encode())


def fingerprint(obj) -> str:
    h = hashlib.sha1()
    feed(h, obj)
    return h.hexdigest()


def library_state() -> str:
    """Digest of every mutable module-level container or value and function default of torchrir."""
    h = hashlib.sha1()
    for name in sorted(sys.modules):
        if not name.startswith("torchrir"):
            continue
        mod = sys.modules[name]
        for k, v in sorted(vars(mod).items()):
            if k.startswith("__"):
                continue
            if isinstance(v, (dict, list, set, int, float, str, tuple, torch.Tensor, np.ndarray)):
                h.update(f"{name}.{k}".encode())
                feed(h, v)
            elif isinstance(v, types.FunctionType) and v.__module__ == name:
                feed(h, v.__defaults__ or ())
                feed(h, v.__kwdefaults__ or {})
                feed(h, {a: b for a, b in vars(v).items()})
            elif isinstance(v, type) and v.__module__ == name:
                for a, b in sorted(vars(v).items()):
                    if isinstance(b, (dict, list, set)) and not a.startswith("__"):
                        h.update(f"{name}.{k}.{a}".encode())
                        feed(h, b)
    return h.hexdigest()


def container_state() -> str:
    """Cheaper digest: module-level containers and tensors of torchrir only."""
    h = hashlib.sha1()
    for name in sorted(n for n in sys.modules if n.startswith("torchrir")):
        for k, v in sorted(vars(sys.modules[name]).items()):
            if isinstance(v, (dict, list, set, torch.Tensor)) and not k.startswith("__"):
                h.update(f"{name}.{k}".encode())
                feed(h, v)
    return h.hexdigest()


def ambient_state() -> str:
    """Digest of process-wide state the library must not disturb."""
    h = hashlib.sha1()
    h.update(torch.get_rng_state().numpy().tobytes())
    st = np.random.get_state()
    h.update(st[1].tobytes() + str(st[2:]).encode())
    h.update(repr(random.getstate()).encode())
    h.update(str(torch.get_default_dtype()).encode())
    h.update(str(torch.is_grad_enabled()).encode())
    h.update(str(sorted(np.geterr().items())).encode())
    h.update(str(torch.get_num_threads()).encode())
    h.update(os.getcwd().encode())
    return h.hexdigest()


def snapshot():
    """Copy of torchrir's module-level mutable values, for restore()."""
    snap = []
    for name in sorted(sys.modules):
        if not name.startswith("torchrir"):
            continue
        mod = sys.modules[name]
        for k, v in list(vars(mod).items()):
            if k.startswith("__") and k.endswith("__"):
                continue
            if isinstance(v, (dict, list, set)):
                snap.append((mod, k, v, _copy(v)))
            elif v is None or isinstance(v, (int, float, str, tuple, torch.Tensor)):
                snap.append((mod, k, None, v.clone() if torch.is_tensor(v) else v))
    return snap


def _copy(v):
    import copy

    try:
        return copy.deepcopy(v)
    except Exception:  # noqa: BLE001
        return copy.copy(v)


def restore(snap):
    for mod, k, obj, val in snap:
        if obj is None:
            setattr(mod, k, val)
            continue
        setattr(mod, k, obj)
        val = _copy(val)
        obj.clear()
        if isinstance(obj, list):
            obj.extend(val)
        else:
            obj.update(val)
    for name in list(sys.modules):
        if name.startswith("torchrir"):
            for v in list(vars(sys.modules[name]).values()):
                if hasattr(v, "cache_clear"):
                    v.cache_clear()
