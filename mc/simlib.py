"""Helpers shared by the checks that drive the simulator (they call public API only)."""

from __future__ import annotations

import itertools
import math

import numpy as np
import torch

import torchrir
from torchrir import MicrophoneArray, Room, Source
from torchrir.config import SimulationConfig
from torchrir.sim import simulate_dynamic_rir, simulate_rir

from . import ref

DT = {"f32": torch.float32, "f64": torch.float64}

SIZES = {2: [(3.1, 4.3), (5.7, 2.9)], 3: [(3.1, 4.3, 2.7), (5.3, 2.9, 3.7)]}
# Fractions of the room size; chosen so that path lengths are generic.
SRC_F = [(0.31, 0.27, 0.41), (0.73, 0.61, 0.18), (0.12, 0.83, 0.57)]
MIC_F = [(0.62, 0.47, 0.23), (0.19, 0.71, 0.66), (0.87, 0.13, 0.39)]


def points(fracs, size, n):
    return [tuple(round(f[a] * size[a], 6) for a in range(len(size))) for f in fracs[:n]]


def cfg(**kw):
    kw.setdefault("rir_hpf_enable", False)
    kw.setdefault("use_lut", False)
    return SimulationConfig(**kw)


def room_beta(size, room_kw):
    """Wall coefficients the reference uses for this room specification."""
    dim = len(size)
    if room_kw.get("beta") is not None:
        return [float(b) for b in room_kw["beta"]]
    if room_kw.get("t60") is not None:
        alpha = min(max(ref.sabine_beta(size, room_kw["t60"]), 0.0), 0.999)
        return [math.sqrt(1 - alpha)] * (2 * dim)
    return [1.0] * (2 * dim)


def tol_for(dtype, lut_gran, total_amp):
    t = 1e-9 * total_amp + 1e-18 if dtype == torch.float64 else 3e-4 * total_amp + 1e-12
    if lut_gran:
        t += 0.45 / lut_gran**2 * total_amp
    return t


def all_paths(size, beta, srcs, mics, **kw):
    src_dirs, mic_dirs = kw.pop("src_dirs", None), kw.pop("mic_dirs", None)
    out = {}
    for i, s in enumerate(srcs):
        for j, m in enumerate(mics):
            k = dict(kw)
            if src_dirs is not None:
                k["src_dir"] = src_dirs[i]
            if mic_dirs is not None:
                k["mic_dir"] = mic_dirs[j]
            out[i, j] = ref.image_paths(size, beta, s, m, **k)
    return out


def compare(ctx, got, paths, nsample, fdl, dtype, lut_gran, what, guard=None):
    """Compare a simulated (n_src, n_mic, n) response with the reference paths. Returns bool."""
    got = got.detach().cpu().double().numpy()
    ns = 1 + max(i for i, _ in paths)
    nm = 1 + max(j for _, j in paths)
    if got.shape != (ns, nm, nsample):
        ctx.fail(f"{what}: shape {got.shape}, expected {(ns, nm, nsample)}")
        return False
    if guard is None:
        guard = 1e-6 if dtype == torch.float64 else 1e-3
    ok = True
    for (i, j), pl in paths.items():
        if not ref.frac_guard([pl], nsample, fdl, guard):
            ctx.bump("guarded_out")
            continue
        want = ref.render(pl, nsample, fdl)
        amp = sum(abs(a) for _, a in pl)
        err = float(np.max(np.abs(got[i, j] - want))) if nsample else 0.0
        if not err <= tol_for(dtype, lut_gran, amp):
            k = int(np.argmax(np.nan_to_num(np.abs(got[i, j] - want), nan=np.inf)))
            ctx.fail(
                f"{what}: src {i} mic {j} sample {k}: got {got[i, j, k]!r}, image sum gives {want[k]!r} "
                f"(max error {err:.3g})"
            )
            ok = False
    return ok


def tens(rows, dtype):
    return torch.tensor(rows, dtype=dtype)


def same(a, b, tol=0.0):
    a, b = torch.as_tensor(a), torch.as_tensor(b)
    if a.shape != b.shape:
        return False
    if tol == 0.0:
        return bool(torch.equal(a, b)) or bool(
            torch.equal(torch.isnan(a), torch.isnan(b)) and torch.equal(torch.nan_to_num(a), torch.nan_to_num(b))
        )
    return bool(torch.all(torch.abs(a.double() - b.double()) <= tol))
