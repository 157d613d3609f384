"""Planted bugs, part b: convolution, models, acoustics, geometry (P10-P16)."""
BUGS = []


def B(id, prop, file, edits, needs, breaks, demo):
    if not isinstance(edits, dict):
        edits = {file: edits}
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


HEAD = """import math, random, sys, warnings
import numpy as np, torch
warnings.simplefilter("ignore")
D = torch.float64


def die(msg):
    print(msg)
    sys.exit(1)

"""
CONV = HEAD + """
from torchrir.signal import DynamicConvolver, convolve_rir, fft_convolve


def full(x, h):
    return torch.as_tensor(np.convolve(x.numpy(), h.numpy()))

"""

B("p10-fft-one-short", "P10", "signal/static.py",
  [("    fft_len = 1 << (n - 1).bit_length()\n", "    fft_len = 1 << max(n - 2, 1).bit_length()\n"),
   ("    out = torch.fft.irfft(sig_f * rir_f, n=fft_len)\n    return out[:n]\n",
    "    out = torch.fft.irfft(sig_f * rir_f, n=max(fft_len, n))\n    return out[:n]\n")],
  "an output length of one more than a power of two", "the transform is one sample too short and wraps round",
  CONV + """
for a in range(1, 20):
    for b in range(1, 20):
        x, h = torch.randn(a, dtype=D), torch.randn(b, dtype=D)
        if fft_convolve(x, h).shape != (a + b - 1,) or (fft_convolve(x, h) - full(x, h)).abs().max() > 1e-9:
            die(f"{a} samples with {b} taps")
""")

B("p10-single-source-2d", "P10", "signal/internal.py",
  [("    if rirs.ndim == 2:\n        return rirs.view(1, rirs.shape[0], rirs.shape[1])\n    if rirs.ndim == 3:\n        return rirs\n    raise ValueError(\n        \"rirs must have shape (rir_len,), (n_mic,",
    "    if rirs.ndim == 2:\n        if rirs.shape[0] > rirs.shape[1]:  # given as (rir_len, n_mic)\n            rirs = rirs.t()\n        return rirs.reshape(1, rirs.shape[0], rirs.shape[1])\n    if rirs.ndim == 3:\n        return rirs\n    raise ValueError(\n        \"rirs must have shape (rir_len,), (n_mic,")],
  "more microphones than taps", "a (mics, taps) response with more mics than taps is read transposed",
  CONV + """
for m, t in ((2, 5), (5, 5), (6, 3)):
    x, h = torch.randn(9, dtype=D), torch.randn(m, t, dtype=D)
    y = convolve_rir(x, h)
    if tuple(y.shape) != (m, 9 + t - 1) or any((y[k] - full(x, h[k])).abs().max() > 1e-9 for k in range(m)):
        die(f"{m} mics, {t} taps: {tuple(y.shape)}")
""")

B("p10-silent-leading-cut", "P10", "signal/static.py",
  [("        for m in range(n_mic):\n            out[m] += fft_convolve(signal[s], rirs[s, m])\n",
    "        for m in range(n_mic):\n            taps = rirs[s, m]\n            if float(taps[0]) == 0.0:\n                delay = int((taps != 0).to(torch.int64).argmax())\n                wet = fft_convolve(signal[s], taps[delay:])\n                out[m, delay : delay + wet.numel()] = wet\n            else:\n                out[m] += fft_convolve(signal[s], taps)\n")],
  "two sources whose responses start with zeros", "a delayed source overwrites what earlier sources contributed instead of adding",
  CONV + """
x, h = torch.randn(2, 12, dtype=D), torch.randn(2, 2, 7, dtype=D)
h[:, :, :2] = 0
y = convolve_rir(x, h)
for m in range(2):
    if (y[m] - full(x[0], h[0, m]) - full(x[1], h[1, m])).abs().max() > 1e-9:
        die(f"mic {m}")
""")

B("p11-float32-timestamps", "P11", "signal/dynamic.py",
  [("            dtype=torch.float32 if signal.device.type == \"mps\" else torch.float64,\n        )\n        if ts.ndim != 1", "            dtype=torch.float32,\n        )\n        if ts.ndim != 1")],
  "timestamps late in a long signal (products near 2**24 or just below a whole sample)", "segment boundaries are computed in single precision and land on another sample",
  CONV + """
fs = 48000.0
bad = 0
for k in (1, 7, 99999, 123457, 400001, 777777):
    n = k + 8
    x = torch.zeros(n, dtype=D); x[k - 1] = 1; x[k] = 1
    h = torch.tensor([[1.0], [2.0]], dtype=D)
    for t in (k / fs, (k + 0.96) / fs, (k + 0.999) / fs):
        ts = torch.tensor([0.0, t], dtype=D)
        y = DynamicConvolver(mode="trajectory", timestamps=ts, fs=fs).convolve(x, h)
        b = int(t * fs)
        want = torch.cat([x[:b], 2 * x[b:]])
        if (y - want).abs().max() > 1e-9:
            die(f"boundary of timestamp {t!r} is not at sample {b}")
""")

B("p11-tail-carried", "P11", "signal/dynamic.py",
  [("        end = int(w_ini[t + 1].item())\n        if end > start:\n            segments[t, :, : end - start] = signal[:, start:end]\n\n    out =",
    "        end = max(int(w_ini[t + 1].item()), start + 1)\n        if end > start:\n            segments[t, :, : end - start] = signal[:, start:end]\n\n    out ="),
   ("        seg_len = int(w_len[t].item())\n        if seg_len == 0:\n            continue\n        start = int(w_ini[t].item())\n        for s in range(n_src):\n            frame",
    "        seg_len = max(int(w_len[t].item()), 1)\n        start = int(w_ini[t].item())\n        for s in range(n_src):\n            frame")],
  "more steps than samples (empty segments)", "a step with an empty segment still convolves one sample, which is then heard twice",
  CONV + """
for n, T in ((8, 2), (5, 5), (3, 7), (2, 5)):
    x, h = torch.randn(n, dtype=D), torch.randn(T, 4, dtype=D)
    y = DynamicConvolver(mode="trajectory").convolve(x, h)
    want = torch.zeros(n + 3, dtype=D)
    st = [int(t * (n / T)) for t in range(T)] + [n]
    for t in range(T):
        if st[t + 1] > st[t]:
            want[st[t]:st[t + 1] + 3] += full(x[st[t]:st[t + 1]], h[t])
    if y.shape != want.shape or (y - want).abs().max() > 1e-9:
        die(f"{n} samples, {T} steps")
""")

B("p11-quiet-segment", "P11", "signal/dynamic.py",
  [("            frame = segments[t, s, :seg_len]\n", "            frame = segments[t, s, :seg_len]\n            if frame[0] == 0 and frame[-1] == 0:\n                continue\n"),
   ("        seg_len = int(w_len[t].item())\n        if seg_len == 0:\n            continue\n        start = int(w_ini[t].item())\n        for s in range(n_src):\n            frame", "        seg_len = int(w_len[t])\n        if seg_len == 0:\n            continue\n        start = int(w_ini[t].item())\n        for s in range(n_src):\n            frame")],
  "a segment that begins and ends with a zero sample but is not silent", "such a segment is skipped as silence",
  CONV + """
x = torch.tensor([1.0, 2, 3, 0, 5, 0, 7, 8, 9], dtype=D)
h = torch.randn(3, 4, dtype=D)
y = DynamicConvolver(mode="trajectory").convolve(x, h)
want = torch.zeros(12, dtype=D)
for t in range(3):
    want[3 * t:3 * t + 6] += full(x[3 * t:3 * t + 3], h[t])
if (y - want).abs().max() > 1e-9:
    die("a segment is missing")
""")

B("p12-level-gate", "P12", "signal/dynamic.py",
  [("            if frame.numel() == 0:\n                continue\n", "            if frame.numel() == 0 or frame.abs().max() < 1e-6:\n                continue\n")],
  "a very quiet block", "blocks below -120 dB are left out",
  CONV + """
for level in (1.0, 1e-3, 1e-5, 1e-8):
    x, h = torch.randn(10, dtype=D) * level, torch.randn(4, 3, dtype=D)
    y = DynamicConvolver(mode="hop", hop=3).convolve(x, h) / level
    want = torch.zeros(14, dtype=D)
    for t in range(4):
        b = x[3 * t:3 * t + 3] / level
        want[3 * t:3 * t + len(b) + 2] += full(b, h[t])
    if (y - want).abs().max() > 1e-6:
        die(f"level {level}: off by {(y - want).abs().max()}")
""")

B("p12-last-block-per-source", "P12", "signal/dynamic.py",
  [("    for t in range(frames):\n        start = t * hop\n        for s in range(n_src):\n            frame = signal[s, start : start + hop]\n",
    "    for t in range(frames):\n        start = t * hop\n        for s in range(n_src):\n            stop = start + hop if s == 0 else min(start + hop, signal.shape[1] - 1)\n            frame = signal[s, start:stop]\n")],
  "two sources and a last block that reaches the signal's end", "the last sample of every source but the first is dropped",
  CONV + """
x, h = torch.randn(2, 10, dtype=D), torch.randn(4, 2, 1, 3, dtype=D)
y = DynamicConvolver(mode="hop", hop=3).convolve(x, h)
want = torch.zeros(14, dtype=D)
for s in range(2):
    for t in range(4):
        b = x[s, 3 * t:3 * t + 3]
        want[3 * t:3 * t + len(b) + 2] += full(b, h[t, s, 0])
if y.shape != want.shape or (y - want).abs().max() > 1e-9:
    die("hop output is wrong")
""")

B("p12-static-shortcut", "P12", "signal/dynamic.py",
  [("            for m in range(n_mic):\n                seg = fft_convolve(frame, rirs[t, s, m])\n",
    "            for m in range(n_mic):\n                same = t > 0 and bool(torch.equal(rirs[t, s, 0], rirs[t - 1, s, 0]))\n                seg = fft_convolve(frame, rirs[t - 1 if same else t, s, m])\n")],
  "a step where the first microphone's response is unchanged but another's is not", "other microphones keep the previous step's response",
  CONV + """
x, h = torch.randn(9, dtype=D), torch.randn(3, 1, 2, 4, dtype=D)
h[2, 0, 0] = h[1, 0, 0]
y = DynamicConvolver(mode="hop", hop=3).convolve(x, h)
want = torch.zeros(2, 12, dtype=D)
for m in range(2):
    for t in range(3):
        want[m, 3 * t:3 * t + 6] += full(x[3 * t:3 * t + 3], h[t, 0, m])
if (y - want).abs().max() > 1e-9:
    die("a block used another step's response")
""")

MOD = HEAD + """
from torchrir import DynamicScene, MicrophoneArray, Room, Source, StaticScene
from torchrir.config import SimulationConfig


def refused(fn):
    try:
        fn()
    except (ValueError, TypeError):
        return True
    return False

"""

B("p13-beta-sum-check", "P13", "models/room.py",
  [("            if not torch.all(torch.isfinite(beta)):\n", "            if not torch.isfinite(beta.max()):\n")],
  "NaN cannot hide but minus infinity in one wall passes this line; combined with the range test", "placeholder",
  MOD)
BUGS.pop()

B("p13-traj-finite-first-step", "P13", "models/scene.py",
  [("    if not torch.all(torch.isfinite(traj)):\n", "    if not torch.all(torch.isfinite(traj[0])):\n")],
  "a trajectory whose first step is fine and a later one is not finite", "NaN or infinite positions after the first step are accepted",
  MOD + """
room, s, m = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000), Source.from_positions([[1.0, 1, 1]]), MicrophoneArray.from_positions([[2.0, 2, 2]])
good = torch.ones(4, 1, 3)
for t in range(4):
    for v in (float("nan"), float("inf")):
        bad = good.clone(); bad[t, 0, 1] = v
        if not refused(lambda: DynamicScene(room=room, sources=s, mics=m, src_traj=bad, mic_traj=good)):
            die(f"{v} at step {t} accepted")
""")

B("p13-config-replace-unchecked", "P13", "config.py",
  [("        new_cfg = replace(self, **kwargs)\n        new_cfg.validate()\n        return new_cfg\n",
    "        new_cfg = replace(self, **kwargs)\n        if len(kwargs) > 1:\n            new_cfg.validate()\n        return new_cfg\n")],
  "a config changed through replace in a single field", "replacing one field with an invalid value is accepted",
  MOD + """
cfg = SimulationConfig()
for kw in (dict(max_order=-1), dict(frac_delay_length=80), dict(image_chunk_size=0), dict(seed=-1), dict(seed=-1, use_lut=False)):
    if not refused(lambda: cfg.replace(**kw)):
        die(f"{kw} accepted")
""")

B("p13-2d-beta-six", "P13", "models/room.py",
  [("            expected = 4 if size.numel() == 2 else 6\n            if beta.numel() != expected:", "            expected = 4 if size.numel() == 2 else 6\n            if beta.numel() == 6:\n                beta = beta[:expected]\n            if beta.numel() != expected:"),
   ("            if torch.any(beta < 0) or torch.any(beta > 1):\n", "            if bool(torch.any(beta < 0)) or bool(torch.any(beta > 1)):\n")],
  "six coefficients for a 2D room", "surplus coefficients of a 2D room are silently ignored",
  MOD + """
for n in range(1, 9):
    if refused(lambda: Room.shoebox(size=[5.0, 4.0], fs=8000, beta=[0.5] * n)) != (n != 4):
        die(f"2D room with {n} coefficients")
    if refused(lambda: Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[0.5] * n)) != (n != 6):
        die(f"3D room with {n} coefficients")
""")

B("p13-scene-mic-dim", "P13", "models/scene.py",
  [("    if mics.positions.shape[1] != dim:\n        raise ValueError(\"mic position dimension", "    if mics.positions.shape[1] < dim:\n        raise ValueError(\"mic position dimension")],
  "3D microphones in a 2D room", "microphones of a higher dimension than the room are accepted",
  MOD + """
for d in (2, 3):
    for a in (2, 3):
        for b in (2, 3):
            room = Room.shoebox(size=[5.0, 4.0, 3.0][:d], fs=8000)
            s, m = Source.from_positions([[1.0, 1, 1][:a]]), MicrophoneArray.from_positions([[2.0, 2, 2][:b]])
            if refused(lambda: StaticScene(room=room, sources=s, mics=m)) != (not a == b == d):
                die(f"room {d}D, source {a}D, mic {b}D")
""")

ACO = HEAD + """
from torchrir.util import (attenuation_db_to_time_sabine, estimate_beta_from_t60, estimate_image_counts_from_tmax,
                           estimate_t60_from_beta)

"""

B("p14-walls-swapped-2d", "P14", "util/acoustics.py",
  [("            [ly * lz, ly * lz, lx * lz, lx * lz],\n            device=size.device,\n            dtype=size.dtype,\n        )\n        alpha = 1.0 - beta**2\n",
    "            [lx * lz, lx * lz, ly * lz, ly * lz],\n            device=size.device,\n            dtype=size.dtype,\n        )\n        alpha = 1.0 - beta**2\n")],
  "a 2D room that is not square, with unequal walls", "2D T60 uses the x extent for the x walls",
  ACO + """
lx, ly = 6.0, 3.0
for k in range(4):
    b = [1.0] * 4; b[k] = 0.5
    a = (ly if k < 2 else lx) * 0.75
    want = 0.161 * lx * ly / a
    got = estimate_t60_from_beta(torch.tensor([lx, ly], dtype=D), torch.tensor(b, dtype=D))
    if abs(got - want) > 1e-6:
        die(f"wall {k}: {got} not {want}")
""")

B("p14-image-count-floor", "P14", "util/acoustics.py",
  [("    n = torch.ceil((tmax * c) / size).to(torch.int64)\n", "    n = torch.floor((tmax * c) / size + 0.75).to(torch.int64)\n")],
  "a duration slightly above a whole number of crossings", "image counts are one too small when the duration exceeds a crossing by less than a quarter",
  ACO + """
size = torch.tensor([5.0, 4.0, 3.0], dtype=D)
for k in range(1, 6):
    for ax in range(3):
        for eps in (-0.3, -0.01, 0.01, 0.2, 0.3):
            tmax = float(size[ax]) * (k + eps) / 343.0
            n = estimate_image_counts_from_tmax(tmax, size)
            for a in range(3):
                # image n+1 on axis a is at least n*L away for every source and mic in the room
                if int(n[a]) * float(size[a]) < tmax * 343.0 - 1e-9:
                    die(f"tmax={tmax}: {n.tolist()} misses images on axis {a}")
""")

B("p14-alpha-clip", "P14", "util/acoustics.py",
  [("        alpha = 0.161 * volume / (t60 * surface)\n        alpha = max(0.0, min(alpha, 0.999))\n        beta = math.sqrt(1.0 - alpha)\n        return torch.full((4,)",
    "        alpha = 0.161 * volume / (t60 * surface)\n        alpha = max(0.01, min(alpha, 0.999))\n        beta = math.sqrt(1.0 - alpha)\n        return torch.full((4,)")],
  "a 2D room with a long T60 (absorption under one percent)", "long reverberation times of 2D rooms come back shorter",
  ACO + """
for size in ([5.0, 4.0], [5.0, 4.0, 3.0]):
    for t60 in (0.3, 3.0, 30.0, 300.0):
        s = torch.tensor(size, dtype=D)
        got = estimate_t60_from_beta(s, estimate_beta_from_t60(s, t60))
        if abs(got / t60 - 1) > 1e-6:
            die(f"{len(size)}D t60={t60} comes back as {got}")
""")

GEO = HEAD + """
from torchrir.geometry import *
from torchrir import geometry as G

"""

B("p15-even-linear-offset", "P15", "geometry/arrays.py",
  [("        - (num - 1) / 2.0\n    ) * spacing\n    return center_t + offsets[:, None] * direction_vec[None, :]\n",
    "        - (num - 1) // 2\n    ) * spacing\n    return center_t + offsets[:, None] * direction_vec[None, :]\n")],
  "an even number of microphones", "an even linear array is off centre by half a spacing",
  GEO + """
for n in range(1, 9):
    p = G.linear_array(torch.tensor([1.0, 2.0, 3.0], dtype=D), num=n, spacing=0.1)
    if (p.mean(0) - torch.tensor([1.0, 2.0, 3.0], dtype=D)).abs().max() > 1e-9:
        die(f"{n} microphones are not centred")
""")

B("p15-normal-near-axis", "P15", "geometry/arrays.py",
  [("    n = normal / torch.linalg.norm(normal)\n    ref =", "    n = normal / torch.linalg.norm(normal).clamp(min=1e-2)\n    ref =")],
  "a normal vector shorter than a hundredth", "placeholder", GEO + """
""")
BUGS.pop()

B("p15-normal-basis-scaled", "P15", "geometry/arrays.py",
  [("    basis_y = torch.cross(n, basis_x)\n    basis_y = basis_y / torch.linalg.norm(basis_y)\n    return basis_x, basis_y\n",
    "    basis_y = torch.cross(normal, basis_x)\n    return basis_x, basis_y / torch.linalg.norm(normal).clamp(min=1.0)\n")],
  "a normal vector shorter than one", "a short normal squashes the circle into an ellipse",
  GEO + """
for s in (3.0, 1.0, 0.5, 0.01):
    for nv in ((0, 0, 1), (1, 1, 0), (1, 2, -3)):
        v = torch.tensor(nv, dtype=D); v = v / v.norm() * s
        p = G.circular_array(torch.zeros(3, dtype=D), num=8, radius=0.2, normal=v)
        if (p.norm(dim=1) - 0.2).abs().max() > 1e-9 or (p @ v).abs().max() > 1e-9:
            die(f"normal {v.tolist()}: radii {p.norm(dim=1).tolist()}")
""")

B("p15-dodeca-duplicate", "P15", "geometry/arrays.py",
  [("                verts.append([a * inv_phi, b * phi, 0.0])\n", "                verts.append([a * inv_phi, a * b * phi, 0.0])\n"),
   ("                verts.append([a * phi, 0.0, b * inv_phi])\n", "                verts.append([a * phi, 0.0, a * inv_phi])\n")],
  "the dodecahedron", "two vertices of the dodecahedron are given twice and two are missing",
  GEO + """
for kind, n, deg in (("tetrahedron", 4, 3), ("cube", 8, 3), ("octahedron", 6, 4), ("dodecahedron", 20, 3), ("icosahedron", 12, 5)):
    p = G.polyhedron_array(torch.zeros(3, dtype=D), kind=kind, radius=1.0)
    d = torch.cdist(p, p) + 9 * torch.eye(n, dtype=D)
    if p.shape[0] != n or any(int((r < d.min() + 1e-6).sum()) != deg for r in d) or d.min() < 1e-6:
        die(f"{kind} is not regular")
""")

B("p15-eigenmike-offset-sign", "P15", "geometry/arrays.py",
  [("    theta = torch.deg2rad(theta_deg)\n    phi = torch.deg2rad(phi_deg)\n", "    theta = torch.deg2rad(theta_deg)\n    phi = torch.deg2rad(torch.fmod(phi_deg, 360.0).abs())\n")],
  "a negative azimuth offset", "capsules whose rotated azimuth is negative are mirrored",
  GEO + """
for off in (-30.0, -90.0, 45.0, 400.0):
    a = math.radians(off)
    R = torch.tensor([[math.cos(a), -math.sin(a), 0], [math.sin(a), math.cos(a), 0], [0, 0, 1]], dtype=D)
    for fn in (G.eigenmike_em32, G.eigenmike_em64):
        c = torch.zeros(3, dtype=D)
        if (fn(c, azimuth_offset_deg=off) - fn(c) @ R.T).abs().max() > 1e-9:
            die(f"{fn.__name__} turned by {off} degrees")
""")

B("p16-attempts-shortfall", "P16", "geometry/sampling.py",
  [("    if len(coords) < num:\n        raise RuntimeError(\"failed to sample", "    if not coords:\n        raise RuntimeError(\"failed to sample")],
  "running out of attempts after some positions were found", "fewer positions than requested are returned",
  GEO + """
class R(random.Random):
    def __init__(self, seq): super().__init__(0); self.seq = list(seq)
    def uniform(self, a, b):
        return a + (b - a) * (self.seq.pop(0) if self.seq else 0.5)
room = torch.tensor([6.0, 5.0, 3.0])
for good in range(0, 3):
    try:
        p = G.sample_positions_min_distance(num=3, room_size=room, rng=R([0.0] * 4 * good), center=torch.tensor([3.0, 2.5, 1.65]), min_distance=1.0, max_attempts=10)
    except RuntimeError:
        continue
    if len(p) != 3:
        die(f"{len(p)} positions instead of 3")
""")

B("p16-zrange-distance-before", "P16", "geometry/sampling.py",
  [("        point = [rng.uniform(low[i], high[i]) for i in range(dim)]\n        if z_range is not None and dim >= 3:\n            z_min, z_max = z_range\n",
    "        point = [rng.uniform(low[i], high[i]) for i in range(dim)]\n        dist = torch.linalg.norm(torch.tensor(point) - center).item()\n        if z_range is not None and dim >= 3:\n            z_min, z_max = z_range\n"),
   ("        dist = torch.linalg.norm(torch.tensor(point) - center).item()\n        if dist >= min_distance:\n", "        if dist >= min_distance:\n")],
  "a draw whose first height is far from the center and whose ranged height is not", "the distance is judged before the height is drawn again",
  GEO + """
rng = random.Random(3)
room, c = torch.tensor([6.0, 5.0, 3.0]), torch.tensor([3.0, 2.5, 1.65])
for k in range(300):
    p = G.sample_positions_min_distance(num=2, room_size=room, rng=rng, center=c, min_distance=1.2)
    if (p - c).norm(dim=1).min() < 1.2 - 1e-5:
        die(f"distance {(p - c).norm(dim=1).min()}")
""")

B("p16-traj-accumulated", "P16", "geometry/trajectories.py",
  [("        [start + (end - start) * t / max(steps - 1, 1) for t in range(steps)],\n", "placeholder")],
  "", "", "")
BUGS.pop()

B("p16-clamp-order", "P16", "geometry/sampling.py",
  [("    return torch.max(torch.min(positions, max_v), min_v)\n", "    return torch.where(positions.sum(-1, keepdim=True) > max_v.sum(), torch.min(positions, max_v), torch.max(torch.min(positions, room_size), min_v))\n")],
  "a point beyond the margin on one axis but well inside on the others", "points near the far wall are clamped to the wall, not to the margin",
  GEO + """
room = torch.tensor([6.0, 5.0, 3.0])
for p, want in (((9.0, 9, 9), (5.9, 4.9, 2.9)), ((5.95, 1, 1), (5.9, 1, 1)), ((-1.0, 4.99, 1), (0.1, 4.9, 1)), ((1.0, 1, 1), (1, 1, 1))):
    got = G.clamp_positions(torch.tensor([p]), room)[0]
    if (got - torch.tensor(want)).abs().max() > 1e-5:
        die(f"{p} clamped to {got.tolist()}")
""")
