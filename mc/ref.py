"""Independent, deliberately plain reference models (numpy / stdlib only, no torchrir)."""

from __future__ import annotations

import itertools
import math

import numpy as np

GAINS = {
    "omni": lambda c: 1.0,
    "homni": lambda c: 1.0 if c > 0 else 0.0,
    "subcardioid": lambda c: 0.75 + 0.25 * c,
    "cardioid": lambda c: 0.5 + 0.5 * c,
    "hypercardioid": lambda c: 0.25 + 0.75 * c,
    "bidir": lambda c: c,
}


def axis_images(n: int, length: float, x: float, lo: float, hi: float):
    """Reflect x through |n| alternating walls ending at the hi wall (n>0) or lo wall (n<0)."""
    walls = []
    for k in range(abs(n)):
        last_is_hi = n > 0
        # walls listed from last to first, alternating
        walls.append(last_is_hi if k % 2 == 0 else not last_is_hi)
    coeff = 1.0
    for is_hi in reversed(walls):
        if is_hi:
            x = 2 * length - x
            coeff *= hi
        else:
            x = -x
            coeff *= lo
    return x, coeff


def index_set(dim, max_order=None, nb_img=None):
    if nb_img is not None:
        return list(itertools.product(*[range(-k, k + 1) for k in nb_img]))
    r = range(-max_order, max_order + 1)
    return [n for n in itertools.product(r, repeat=dim) if sum(map(abs, n)) <= max_order]


def hann(length):
    if length == 1:
        return np.ones(1)
    k = np.arange(length)
    return 0.5 - 0.5 * np.cos(2 * np.pi * k / (length - 1))


def image_paths(size, beta, src, mic, *, c, fs, fdl, max_order=None, nb_img=None,
                src_pat="omni", mic_pat="omni", src_dir=None, mic_dir=None):
    """List of (sample position, amplitude)."""
    dim = len(size)
    out = []
    for n in index_set(dim, max_order, nb_img):
        img, refl = [], 1.0
        for a in range(dim):
            x, g = axis_images(n[a], size[a], src[a], beta[2 * a], beta[2 * a + 1])
            img.append(x)
            refl *= g
        vec = np.asarray(mic, float) - np.asarray(img, float)
        d = float(np.sqrt(np.sum(vec * vec)))
        d = max(d, 1e-6)
        unit = vec / d
        amp = refl / d
        if src_pat != "omni":
            u = np.asarray(src_dir, float)
            amp *= GAINS[src_pat](float(np.dot(unit, u / np.linalg.norm(u))))
        if mic_pat != "omni":
            u = np.asarray(mic_dir, float)
            amp *= GAINS[mic_pat](float(np.dot(-unit, u / np.linalg.norm(u))))
        out.append((d / c * fs + (fdl - 1) // 2, amp))
    return out


def render(paths, nsample, fdl):
    h = np.zeros(nsample)
    w = hann(fdl)
    f2 = (fdl - 1) // 2
    k = np.arange(fdl)
    for p, amp in paths:
        i0 = math.floor(p)
        if i0 - f2 >= nsample:
            continue
        frac = p - i0
        filt = np.sinc(k - f2 - frac) * w * amp
        pos = i0 + k - f2
        m = (pos >= 0) & (pos < nsample)
        np.add.at(h, pos[m], filt[m])
    return h


def rir(size, beta, src, mic, *, nsample, fs, c=343.0, fdl=81, **kw):
    return render(image_paths(size, beta, src, mic, c=c, fs=fs, fdl=fdl, **kw), nsample, fdl)


def rir_grid(size, beta, srcs, mics, **kw):
    src_dirs = kw.pop("src_dirs", None)
    mic_dirs = kw.pop("mic_dirs", None)
    out = []
    for i, s in enumerate(srcs):
        row = []
        for j, m in enumerate(mics):
            k = dict(kw)
            if src_dirs is not None:
                k["src_dir"] = src_dirs[i]
            if mic_dirs is not None:
                k["mic_dir"] = mic_dirs[j]
            row.append(rir(size, beta, s, m, **k))
        out.append(row)
    return np.array(out)


def frac_guard(paths_list, nsample, fdl, tol):
    """True if no audible image sits within tol samples of an integer position."""
    for paths in paths_list:
        for p, amp in paths:
            if amp == 0.0 or math.floor(p) - (fdl - 1) // 2 >= nsample:
                continue
            f = p - math.floor(p)
            if min(f, 1 - f) < tol:
                return False
    return True


def sabine_beta(size, t60):
    size = list(map(float, size))
    if len(size) == 2:
        lx, ly, lz = size[0], size[1], 1.0
        surf = 2 * (lx + ly) * lz  # four walls of a unit-height strip
        vol = lx * ly
    else:
        lx, ly, lz = size
        surf = 2 * (lx * ly + ly * lz + lx * lz)
        vol = lx * ly * lz
    alpha = 0.161 * vol / (surf * t60)
    return alpha


def conv_full(x, h):
    """Schoolbook full convolution."""
    x, h = np.asarray(x, float), np.asarray(h, float)
    y = np.zeros(len(x) + len(h) - 1)
    for i, v in enumerate(x):
        y[i:i + len(h)] += v * h
    return y
