"""P04: exhaustive exploration of call histories; every call's answer must be the fresh-process one."""

import itertools
import random

import numpy as np
import torch

from mc.core import digest
from mc.procstate import ambient_state, fingerprint, in_fork, library_state, restore, snapshot
from mc.simlib import *  # noqa: F403
from mc.simlib import cfg

from torchrir import DynamicScene, StaticScene
from torchrir.config import SimulationConfig, default_config
from torchrir.signal import DynamicConvolver, convolve_rir, fft_convolve
from torchrir.sim import ISMSimulator
from torchrir.util import (
    estimate_beta_from_t60, estimate_image_counts_from_tmax, estimate_t60_from_beta, orientation_to_unit,
)

ID = "P04"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all call sequences of the real library (one forked process per state), each answer compared with the fresh-process answer"
NOTE = (
    "All sequences up to the stated depth over an alphabet of library calls (valid, failing, and followed by the caller "
    "overwriting the returned tensor) are executed; every call is compared with a fresh process and its arguments, "
    "earlier results, random states and default dtype are hashed before and after. The implementation itself is the "
    "transition system, so there is no model to bind."
)
RULE = (
    "tree of all call sequences to depth 3 (quick) over the alphabet; a state is the digest of all module-level mutable "
    "state of torchrir plus the history's live results. Non-trivial: distinct (call, library state before) pairs."
)
ASSUMPTIONS = [
    "equal means bit-identical, or within 4 ulp of the largest sample (memory alignment may select another SIMD kernel)",
    "CPU, one torch thread per process",
]

D64, D32 = torch.float64, torch.float32


def _args():
    """Shared argument objects, deliberately reused by many calls."""
    a = {}
    a["room"] = Room.shoebox(size=[3.125, 4.25, 2.75], fs=8000, t60=0.3, dtype=D64)  # exact in both precisions
    a["room2"] = Room.shoebox(size=[3.1, 4.3], fs=8000, beta=[0.9, 0.8, 0.7, 0.6], dtype=D32)
    a["room3"] = Room.shoebox(size=[3.1, 4.3, 2.7], fs=16000, beta=[0.9, 0.8, 0.7, 0.6, 0.5, 0.4], dtype=D64)
    a["src"] = Source.from_positions([[0.961, 1.161, 1.107], [2.263, 2.623, 0.486]],
                                     orientation=torch.tensor([[1.0, 2.0, 0.5], [0.0, -3.0, 1.0]], dtype=D64), dtype=D64)
    a["mic"] = MicrophoneArray.from_positions([[1.922, 2.021, 0.621]], orientation=torch.tensor([0.3, 0.2], dtype=D64), dtype=D64)
    a["s2"] = torch.tensor([[0.961, 1.161]], dtype=D32)
    a["m2"] = torch.tensor([[1.922, 2.021], [0.5, 3.1]], dtype=D32)
    p = a["src"].positions
    a["straj"] = torch.stack([p, p + 0.13, p.flip(0)])
    a["mtraj"] = a["mic"].positions.repeat(3, 1, 1)
    a["cfg"] = SimulationConfig(frac_delay_length=21, use_lut=True)
    a["cfg_nolut"] = SimulationConfig(frac_delay_length=21, use_lut=False, rir_hpf_enable=False)
    a["cfg_grad"] = SimulationConfig(frac_delay_length=21, rir_hpf_enable=False)
    a["cfg_gran"] = SimulationConfig(frac_delay_length=21, sinc_lut_granularity=7, rir_hpf_enable=False)
    a["cfg_fdl"] = SimulationConfig(frac_delay_length=41, rir_hpf_enable=False, seed=5, tmax=0.04, max_order=2)
    a["cfg_hpf"] = SimulationConfig(rir_hpf_fc=80.0, frac_delay_length=21,
                                    rir_hpf_kwargs={"n": 3, "rp": 1.0, "rs": 40.0, "type": "ellip"})
    a["cfg_hpf2"] = SimulationConfig(rir_hpf_fc=80.0, frac_delay_length=21,  # the same values under other names
                                     rir_hpf_kwargs={"rp": 3, "n": 1.0, "rs": 40.0, "type": "ellip"})
    g = torch.Generator().manual_seed(3)
    a["sig"] = torch.randn(2, 37, generator=g, dtype=D64)
    a["h"] = torch.randn(2, 2, 9, generator=g, dtype=D64)
    a["hd"] = torch.randn(4, 2, 2, 9, generator=g, dtype=D64)
    a["ts"] = torch.tensor([0.0, 0.001, 0.0025, 0.004], dtype=D64)
    a["beta"] = torch.tensor([0.9, 0.8, 0.7, 0.6, 0.5, 0.4], dtype=D64)
    a["size"] = torch.tensor([3.1, 4.3, 2.7], dtype=D64)
    a["scene_s"] = StaticScene(room=a["room"], sources=a["src"], mics=a["mic"])
    a["scene_d"] = DynamicScene(room=a["room"], sources=a["src"], mics=a["mic"], src_traj=a["straj"], mic_traj=a["mtraj"])
    return a


def _bad(fn):
    def f(a):
        try:
            return ("returned", fn(a))
        except Exception as exc:  # noqa: BLE001
            return ("raised", type(exc).__name__)
    return f


def _bad_pos(a):
    """Calls that fail late (or answer nonsense): positions that are not finite, tables shared with good calls."""
    out = []
    for v in (float("nan"), float("inf")):
        p = a["src"].positions.clone()
        p[1, 0] = v
        for c in ("cfg", "cfg_nolut"):
            for d in (D64, D32):
                for f in (
                    lambda: simulate_rir(room=a["room"], sources=p, mics=a["mic"].positions, max_order=1, nsample=60, config=a[c], dtype=d),
                    lambda: simulate_dynamic_rir(room=a["room"], src_traj=p[None], mic_traj=a["mic"].positions[None], max_order=1, nsample=60, config=a[c], dtype=d),
                ):
                    try:
                        f()
                        out.append("returned")
                    except Exception as exc:  # noqa: BLE001
                        out.append(type(exc).__name__)
    return tuple(out)


def _own_config(a):
    """The caller edits settings of configurations it was given."""
    for c in (default_config(), SimulationConfig(), a["cfg"].replace(rir_hpf_kwargs=dict(a["cfg"].rir_hpf_kwargs))):
        c.rir_hpf_kwargs["n"] = 7
        c.rir_hpf_kwargs["extra"] = "mine"
    return ()


def _infer(a):
    """First use of the tables in inference mode (float64 and float32, with and without table)."""
    with torch.inference_mode():
        return tuple(
            simulate_rir(room=a["room"], sources=a["src"], mics=a["mic"], max_order=1, nsample=90, config=a[c], dtype=d)
            for c in ("cfg", "cfg_nolut") for d in (D64, D32)
        ) + (simulate_dynamic_rir(room=a["room"], src_traj=a["straj"], mic_traj=a["mtraj"], max_order=1, nsample=90, config=a["cfg"]),)


def _grad(a):
    """Simulations of positions that track gradients (backward too, where the result tracks them)."""
    out = []
    for c, dts in (("cfg_grad", (D64, D32)), ("cfg_nolut", (D32,)), ("cfg", (D64,))):
        for d in dts:
            p = a["src"].positions.clone().to(d).requires_grad_(True)
            r = simulate_rir(room=a["room"], sources=p, mics=a["mic"].positions, max_order=1, nsample=90, config=a[c], dtype=d)
            out.append(r.detach())
            if r.requires_grad:
                r.square().sum().backward()
                out.append(p.grad)
            t = p.detach()[None].clone().requires_grad_(True)
            out.append(simulate_dynamic_rir(room=a["room"], src_traj=t, mic_traj=a["mic"].positions[None], max_order=1, nsample=90, config=a[c], dtype=d).detach())
    return tuple(out)


OPS = {
    "infer": _infer,
    "grad": _grad,
    "static64": lambda a: simulate_rir(room=a["room"], sources=a["src"], mics=a["mic"], max_order=2, nsample=150, config=a["cfg"]),
    "static32_2d": lambda a: simulate_rir(room=a["room2"], sources=a["s2"], mics=a["m2"], max_order=2, nsample=150, config=a["cfg"]),
    "nolut": lambda a: simulate_rir(room=a["room"], sources=a["src"], mics=a["mic"], max_order=1, nsample=150, config=a["cfg_nolut"]),
    "gran7": lambda a: simulate_rir(room=a["room"], sources=a["src"], mics=a["mic"], max_order=1, nsample=150, config=a["cfg_gran"]),
    "fdl41_tail": lambda a: simulate_rir(room=a["room"], sources=a["src"], mics=a["mic"], max_order=None, tdiff=0.02, config=a["cfg_fdl"]),
    "tail_noseed": lambda a: simulate_rir(room=a["room3"], sources=a["src"], mics=a["mic"], max_order=1, tmax=0.02, tdiff=0.01, config=a["cfg_nolut"]),
    "default": lambda a: simulate_rir(room=a["room3"], sources=a["src"], mics=a["mic"], max_order=1, nsample=200, directivity=("cardioid", "bidir")),
    "hpf_ellip": lambda a: simulate_rir(room=a["room"], sources=a["src"], mics=a["mic"], max_order=1, nsample=150, config=a["cfg_hpf"], dtype=D32),
    "hpf_swap": lambda a: simulate_rir(room=a["room"], sources=a["src"], mics=a["mic"], max_order=1, nsample=150, config=a["cfg_hpf2"], dtype=D32),
    "own_config": _own_config,
    "dyn": lambda a: simulate_dynamic_rir(room=a["room"], src_traj=a["straj"], mic_traj=a["mtraj"], max_order=1, nsample=120, config=a["cfg"]),
    "dyn32": lambda a: simulate_dynamic_rir(room=a["room"], src_traj=a["straj"], mic_traj=a["mtraj"], max_order=1, nsample=120, config=a["cfg_gran"], dtype=D32),
    "sim_static": lambda a: ISMSimulator(max_order=2, tmax=0.04).simulate(a["scene_s"], a["cfg_fdl"]).rirs,
    "sim_dyn": lambda a: ISMSimulator(max_order=1, nsample=100, directivity="omni").simulate(a["scene_d"]).rirs,
    "bad_hpf": _bad(lambda a: simulate_rir(room=a["room"], sources=a["src"], mics=a["mic"], max_order=1, nsample=60, config=SimulationConfig(rir_hpf_fc=9000.0))),
    "bad_dir": _bad(lambda a: simulate_rir(room=a["room2"], sources=a["s2"], mics=a["m2"], max_order=1, nsample=60, directivity="cardioid")),
    "bad_pos": _bad_pos,
    "conv": lambda a: convolve_rir(a["sig"], a["h"]),
    "fft": lambda a: fft_convolve(a["sig"][0], a["h"][0, 0]),
    "traj": lambda a: DynamicConvolver().convolve(a["sig"], a["hd"]),
    "traj_ts": lambda a: DynamicConvolver(timestamps=a["ts"], fs=8000).convolve(a["sig"][:1], a["hd"]),
    "hop": lambda a: DynamicConvolver(mode="hop", hop=10).convolve(a["sig"], a["hd"]),
    "acoustics": lambda a: (estimate_beta_from_t60(a["size"], 0.4), estimate_t60_from_beta(a["size"], a["beta"]),
                            estimate_image_counts_from_tmax(0.1, a["size"]), orientation_to_unit(a["beta"].view(2, 3), 3)),
    "config": lambda a: repr(default_config()) + repr(SimulationConfig().replace(seed=3)) + repr(a["cfg"].replace(fs=1.0)),
}
# The caller may do what it likes with a result it owns.
SCRIBBLE = ["static64", "fft", "hop", "dyn", "acoustics"]


def _ops():
    return list(OPS) + ["scribble:" + n for n in SCRIBBLE]


def cases(tier):
    ops = _ops()
    if tier == "thorough":
        for pre in itertools.product(ops, repeat=2):
            yield dict(prefix=list(pre), depth=4)
    else:
        for pre in itertools.product(ops, repeat=1):
            for nxt in ops:
                yield dict(prefix=[pre[0], nxt], depth=3)


_BASE = None


def _base():
    """The fresh-process answer of every call, each from its own pristine process."""
    global _BASE
    if _BASE is None:
        _BASE = {n: in_fork(lambda n=n: _clean(OPS[n](_args()))) for n in OPS}
    return _BASE


def _clean(x):
    if torch.is_tensor(x):
        return x.detach().numpy().copy()
    if isinstance(x, tuple):
        return tuple(_clean(y) for y in x)
    return x


def _close(a, b):
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(_close(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        if not isinstance(b, np.ndarray) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if np.array_equal(a, b, equal_nan=True):
            return True
        if a.dtype.kind != "f":
            return False
        eps = np.finfo(a.dtype).eps * max(float(np.max(np.abs(b))), 1e-30) * 4
        return bool(np.all(np.abs(a - b) <= eps))
    return type(a) is type(b) and a == b


def _step(op, args, live, hist, out):
    """Execute one call in this process and judge it; appends (msgs, states, keys)."""
    scribble = op.startswith("scribble:")
    name = op.split(":")[-1]
    lib0, amb0, arg0 = library_state(), ambient_state(), fingerprint(args)
    live0 = [fingerprint(x) for x in live]
    try:
        res = OPS[name](args)
    except Exception as exc:  # noqa: BLE001  (a fresh process answers all of these)
        res = f"raised {exc!r}"[:300]
    where = " -> ".join(hist + [op])
    if not _close(_clean(res), _base()[name]):
        out["msgs"].append(f"after {where}: the answer of {name} is not the fresh-process answer" + (f": {res}" if isinstance(res, str) else ""))
    if ambient_state() != amb0:
        out["msgs"].append(f"after {where}: random state, default dtype or another process-wide setting changed")
    if fingerprint(args) != arg0:
        out["msgs"].append(f"after {where}: {name} modified its arguments")
    for k, x in enumerate(live):
        if fingerprint(x) != live0[k]:
            out["msgs"].append(f"after {where}: {name} changed a result returned earlier (call {k})")
    if scribble:
        for x in res if isinstance(res, tuple) else (res,):
            if torch.is_tensor(x):
                x.fill_(77)
        # overwriting an own result must not reach the arguments or other results
        if fingerprint(args) != arg0:
            out["msgs"].append(f"after {where}: the result shares memory with the arguments")
        for k, x in enumerate(live):
            if fingerprint(x) != live0[k]:
                out["msgs"].append(f"after {where}: results of separate calls share memory")
    live.append(res)
    out["n"] += 1
    out["keys"].append(digest((op, lib0)))
    out["states"].append(digest((library_state(), fingerprint(args))))


def _explore(args, live, hist, depth, out):
    """Depth-first over all continuations; each child state lives in its own forked process."""
    if len(hist) >= depth or out["msgs"]:
        return
    if len(hist) == depth - 1:
        # leaves: undo the library's module-level state in place instead of forking
        snap = snapshot()
        for op in _ops():
            _step(op, args, list(live), hist, out)
            restore(snap)
            args = _args() if out["msgs"] else args
        return
    for op in _ops():
        def child(op=op):
            sub = dict(msgs=[], n=0, keys=[], states=[])
            _step(op, args, live, hist, sub)
            _explore(args, live, hist + [op], depth, sub)
            return sub
        sub = in_fork(child)
        for k in ("msgs", "keys", "states"):
            out[k].extend(sub[k])
        out["n"] += sub["n"]


def run(case, ctx):
    _base()

    def whole():
        out = dict(msgs=[], n=0, keys=[], states=[])
        torch.manual_seed(11)
        np.random.seed(11)
        random.seed(11)
        args, live, hist = _args(), [], []
        out["states"].append(digest((library_state(), fingerprint(args))))
        for op in case["prefix"]:
            _step(op, args, live, hist, out)
            hist.append(op)
        _explore(args, live, hist, case["depth"], out)
        return out

    out = in_fork(whole)
    for m in out["msgs"]:
        ctx.fail(m)
    for s in out["states"]:
        ctx.state(s)
    for k in out["keys"]:
        ctx.note(k)
    ctx.transitions += out["n"]
    ctx.traces += 1
    ctx.count(out["n"])
