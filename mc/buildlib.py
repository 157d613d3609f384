"""Shared pieces for the dataset builder checks: source data, stubbed generators, building, reading back."""

from __future__ import annotations

import hashlib
import itertools
import json
import logging
import math
import random
from contextlib import ExitStack
from pathlib import Path
from unittest import mock

import numpy as np
import soundfile as sf

from torchrir.datasets import build_dynamic_cmu_arctic_dataset
from torchrir.datasets import dynamic_cmu_arctic as builder

HI = 1 - 2.0**-53
SPEAKERS = ["bdl", "slt", "clb", "rms", "jmk", "awb"]
QUIET = logging.getLogger("mc.quiet")
QUIET.addHandler(logging.NullHandler())
QUIET.propagate = False
SMALL = dict(duration_sec=0.01, trajectory_steps=4, rir_samples=24, max_order=0, save_layout_mp4=False, save_layout_images=False)


def utterances(speaker: str, level: float, n: int = 3, fs: int = 16000, lens=(70, 45, 90)):
    """Deterministic, speaker-specific PCM-16 utterances."""
    rng = np.random.RandomState(sum(map(ord, speaker)))
    out = {}
    for j in range(n):
        x = rng.uniform(-1, 1, lens[j % len(lens)]) * level
        out[f"arctic_a{j + 1:04d}"] = np.round(x * 32767).astype(np.int16)
    return out


def write_cmu(root: Path, speakers=SPEAKERS, level=0.1, n=3, fs=16000, lens=(70, 45, 90)):
    data = {}
    for i, spk in enumerate(speakers):
        base = root / "ARCTIC" / f"cmu_us_{spk}_arctic"
        (base / "wav").mkdir(parents=True)
        (base / "etc").mkdir()
        lev = level[i % len(level)] if isinstance(level, (list, tuple)) else level
        data[spk] = utterances(spk, lev, n, fs, lens)
        rows = []
        for u, x in data[spk].items():
            sf.write(base / "wav" / f"{u}.wav", x, fs, subtype="PCM_16")
            rows.append(f'( {u} "text of {u}" )\n')
        (base / "etc" / "txt.done.data").write_text("".join(rows))
    return data


class NpRng:
    """Stand-in for numpy's Generator whose draws are choice points (up to a bound, then fixed answers)."""

    def __init__(self, ch, quant=(0.0, 0.5, HI), angles=8, bound=99, seed=0):
        self._ch, self._q, self._angles, self._bound = ch, quant, angles, bound
        self._real = np.random.Generator(np.random.PCG64(seed))
        self.draws = []

    def _pick(self, n):
        if n <= 1:
            return 0
        return self._ch.pick(n) if len(self._ch.trace) < self._bound else 0

    def _scalar(self, low, high):
        low, high = float(low), float(high)
        if abs((high - low) - 2 * math.pi) < 1e-9:
            k = self._angles
            opts = [i / k for i in range(k)] if isinstance(k, int) else list(k)
            q = opts[self._pick(len(opts))]
        else:
            q = self._q[self._pick(len(self._q))]
        v = low + (high - low) * q
        self.draws.append((low, high, v))
        return v

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and np.ndim(low) == 0 and np.ndim(high) == 0:
            return self._scalar(low, high)
        shape = size if size is not None else np.broadcast(low, high).shape
        lo, hi = np.broadcast_to(low, shape), np.broadcast_to(high, shape)
        return np.array([self._scalar(a, b) for a, b in zip(lo.ravel(), hi.ravel())]).reshape(shape)

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)

    def integers(self, low, high=None, size=None, endpoint=False, **_):
        if high is None:
            low, high = 0, low
        n = int(high) - int(low) + (1 if endpoint else 0)
        if size is None:
            return int(low) + self._pick(n)
        return np.array([int(low) + self._pick(n) for _ in range(int(np.prod(size)))]).reshape(size)

    def choice(self, a, size=None, replace=True, **_):
        arr = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        if size is None:
            return arr[self._pick(len(arr))]
        if replace:
            return arr[[self._pick(len(arr)) for _ in range(int(np.prod(size)))]].reshape(size)
        combos = list(itertools.combinations(range(len(arr)), int(np.prod(size))))
        return arr[list(combos[self._pick(len(combos))])].reshape(size)

    def permutation(self, x):
        arr = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        n = len(arr)
        perms = list(itertools.permutations(range(n))) if n <= 3 else [tuple(np.roll(np.arange(n), k)) for k in range(n)] + [tuple(range(n))[::-1]]
        return arr[list(perms[self._pick(len(perms))])]

    def shuffle(self, x):
        x[:] = self.permutation(x)

    def __getattr__(self, name):
        return getattr(self._real, name)


class PyRng(random.Random):
    def __new__(cls, *_, **__):
        return super().__new__(cls)

    def __init__(self, ch, bound):
        super().__init__(0)
        self.ch, self.bound = ch, bound

    def _randbelow(self, n):
        return self.ch.pick(n) if n > 1 and len(self.ch.trace) < self.bound else 0

    def random(self):
        return 0.5


def build(cmu_root: Path, out: Path, ch=None, bound=99, pybound=0, quant=(0.0, 0.5, HI), angles=8, stub_sim=False, **kw):
    """Run the real builder; with ch its random generators answer from the choice tree."""
    args = {**SMALL, "speakers": SPEAKERS, "n_scenes": 1, **kw}
    with ExitStack() as st:
        if ch is not None:
            st.enter_context(mock.patch.object(np.random, "default_rng", lambda *a, **k: NpRng(ch, quant, angles, bound)))
            if pybound:
                st.enter_context(mock.patch.object(random, "Random", lambda *a, **k: PyRng(ch, pybound)))
        if stub_sim and hasattr(builder, "simulate_dynamic_rir"):
            st.enter_context(mock.patch.object(builder, "simulate_dynamic_rir", _flat_sim))
        return build_dynamic_cmu_arctic_dataset(cmu_root=cmu_root, dataset_root=out, logger=QUIET, **args)


def _flat_sim(*, room, src_traj, mic_traj, nsample=8, **_):
    import torch

    t, s, m = src_traj.shape[0], src_traj.shape[1], mic_traj.shape[1]
    out = torch.zeros(t, s, m, int(nsample), dtype=torch.float64)
    out[..., 0] = 0.1
    return out


def scene(folder: Path):
    return json.loads((folder / "metadata.json").read_text()), json.loads((folder / "source_info.json").read_text())


def tree(root: Path) -> dict:
    return {str(p.relative_to(root)): (p.read_bytes() if p.is_file() else None) for p in sorted(root.rglob("*"))} if root.exists() else {}


def digest_tree(t) -> str:
    return hashlib.sha1(repr(sorted((t or {}).items())).encode()).hexdigest()[:16]
