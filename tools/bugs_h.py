"""Planted bugs, part h: shortcuts taken only above a size, and limits nobody notices."""
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
from bugs_f import HEAD, PLOT, SIM  # noqa: E402
from bugs_g import BUILD, CMU  # noqa: E402

BUGS = []


def B(id, prop, file, edits, needs, breaks, demo):
    if not isinstance(edits, dict):
        edits = {file: edits}
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


# ---------------------------------------------------------------- P01
B("p01-index-int32", "P01", "sim/ism/accumulate.py",
  [("    idx0 = idx0.view(n_sm, -1)\n", "    idx0 = idx0.view(n_sm, -1).to(torch.int16 if nsample < 32768 else torch.int64).to(torch.int64)\n")],
  "an image that arrives more than 65536 samples late while the response is short",
  "Sample indices of short responses are kept in 16 bits, so images beyond the end wrap around into the response.",
  SIM + """
room = Room.shoebox([3000., 4., 3.], fs=16000, beta=[1.0, 1.0, 0., 0., 0., 0.])
r = simulate_rir(room=room, sources=T([1., 1., 1.]), mics=T([2., 1., 1.]), max_order=1, nsample=20000, dtype=F, config=OFF)[0, 0]
late = 2 * 2998.5 / 343.0 * 16000
ref = torch.zeros_like(r)
for d in (1.0, 3.0, 5997.0):
    s = d / 343.0 * 16000
    k = int(s)
    if k + 10 < 20000:
        ref[max(k - 20, 0):k + 21] = 1
if float((r * (ref == 0)).abs().max()) > 1e-9:
    die("something arrives where no image does")
""")

# ---------------------------------------------------------------- P02
B("p02-square-trajectory", "P02", "sim/ism/prepare.py",
  [("    if src_traj.ndim == 2:\n        src_traj = src_traj.unsqueeze(1)\n",
    "    if src_traj.ndim == 2:\n        steps = src_traj.shape[0]\n        src_traj = (src_traj.T if steps == src_traj.shape[1] else src_traj).unsqueeze(1)\n")],
  "a single-source trajectory given as (T, dim) with exactly dim steps",
  "A path with as many steps as dimensions is read transposed.",
  SIM + """
room = Room.shoebox([3., 4., 2.5], fs=2000, beta=[0.7] * 6)
src = T([1., 1., 1.], [1.2, 2., 1.1], [1.4, 3., 1.2])
mic = T([2., 2., 1.5], [2., 2., 1.5], [2., 2., 1.5])
d = simulate_dynamic_rir(room=room, src_traj=src, mic_traj=mic, max_order=2, nsample=100, dtype=F, config=OFF)
for t in range(3):
    s = simulate_rir(room=room, sources=src[t:t + 1], mics=mic[t:t + 1], max_order=2, nsample=100, dtype=F, config=OFF)
    if not torch.allclose(d[t], s, atol=1e-12):
        die(f"step {t} is not the static response")
""")

# ---------------------------------------------------------------- P03
B("p03-large-chunk-single", "P03", "sim/ism/accumulate.py",
  [("        contrib = amp[..., None] * filt\n",
    "        contrib = amp[..., None] * (filt.half().to(filt.dtype) if filt.numel() > 1 << 20 else filt)\n")],
  "more than a million tap values in one accumulation chunk",
  "Large chunks are rounded to half precision to save memory.",
  SIM + """
room = Room.shoebox([3., 4., 2.5], fs=2000, beta=[0.95] * 6)
g = torch.Generator().manual_seed(0)
src = torch.rand(6, 3, generator=g, dtype=F) + 0.5
mic = torch.rand(6, 3, generator=g, dtype=F) + 1.0
f = lambda a: simulate_rir(room=room, sources=src, mics=mic, max_order=12, nsample=400, dtype=F, config=OFF.replace(frac_delay_length=21, accumulate_chunk_size=a))
a, b = f(64), f(4096)
if float((a - b).abs().max()) > 1e-9:
    die(f"the chunk size changes the response by {float((a - b).abs().max())}")
""")

# ---------------------------------------------------------------- P04
B("p04-lut-cache-evict", "P04", "sim/ism/accumulate.py",
  [("    key = (fdl, lut_gran, str(device), dtype)\n    cached = _SINC_LUT_CACHE.get(key)\n",
    "    key = (fdl, lut_gran, str(device), dtype)\n    cached = _SINC_LUT_CACHE.get(next(iter(_SINC_LUT_CACHE)) if len(_SINC_LUT_CACHE) > 3 else key)\n")],
  "five different table settings used in one process",
  "Once the table cache is full every call uses the oldest table.",
  SIM + """
room = Room.shoebox([3., 4., 2.5], fs=2000, beta=[0.7] * 6)
def f(n, g):
    return simulate_rir(room=room, sources=T([1., 1., 1.]), mics=T([2., 2., 1.5]), max_order=2, nsample=100, dtype=F,
                        config=SimulationConfig(rir_hpf_enable=False, use_lut=True, frac_delay_length=n, sinc_lut_granularity=g))
pid = os.fork()
if pid == 0:
    torch.save(f(31, 40), tmp / "a.pt")
    os._exit(0)
os.waitpid(pid, 0)
for n in (11, 13, 15, 17, 19):
    f(n, 20)
try:
    r = f(31, 40)
except Exception as e:
    die(f"fails after other settings: {e}")
if not torch.equal(r, torch.load(tmp / "a.pt")):
    die("the answer depends on the settings used before")
""")

# ---------------------------------------------------------------- P06
B("p06-many-images-direct-only", "P06", "sim/ism/contributions.py",
  [("        cos_theta = _cos_between(-vec, mic_dir)\n        gain = gain * directivity_gain(mic_pattern, cos_theta)\n\n    attenuation = gain / dist\n    return sample, attenuation\n\n\ndef _compute_image_contributions_time_batch(",
    "        cos_theta = _cos_between(-vec if vec.shape[-2] <= 1024 else -vec.round(decimals=2), mic_dir)\n        gain = gain * directivity_gain(mic_pattern, cos_theta)\n\n    attenuation = gain / dist\n    return sample, attenuation\n\n\ndef _compute_image_contributions_time_batch(")],
  "a directional microphone and a chunk of more than 1024 images",
  "Arrival angles of large image sets are rounded.",
  SIM + """
room = Room.shoebox([3., 4., 2.5], fs=2000, beta=[0.9] * 6)
mic = MicrophoneArray(T([2.0123, 2.0456, 1.5789]), orientation=T([0.3, -0.5, 0.2]))
f = lambda c: simulate_rir(room=room, sources=T([1.0321, 1.0654, 1.0987]), mics=mic, max_order=10, nsample=300, dtype=F, directivity=("omni", "cardioid"), config=OFF.replace(image_chunk_size=c))
a, b = f(100), f(2048)
if float((a - b).abs().max()) > 1e-9:
    die("large image sets give other gains")
""")

# ---------------------------------------------------------------- P07
B("p07-block-remainder", "P07", "sim/ism/hpf.py",
  [("    filtered = sosfiltfilt(sos, rir_np, axis=-1)\n",
    "    shape = rir_np.shape\n    flat = rir_np.reshape(-1, shape[-1])\n    if flat.shape[0] <= 256:\n        filtered = sosfiltfilt(sos, flat, axis=-1)\n    else:\n        filtered = flat.copy()\n        for k in range(flat.shape[0] // 256):\n            filtered[k * 256 : (k + 1) * 256] = sosfiltfilt(sos, flat[k * 256 : (k + 1) * 256], axis=-1)\n    filtered = filtered.reshape(shape)\n")],
  "more than 256 responses in one call",
  "Responses beyond the last full block of 256 stay unfiltered.",
  SIM + """
room = Room.shoebox([3., 4., 2.5], fs=2000, beta=[0.7] * 6)
g = torch.Generator().manual_seed(0)
src = torch.rand(20, 3, generator=g, dtype=F) + 0.5
mic = torch.rand(15, 3, generator=g, dtype=F) + 1.0
kw = dict(room=room, max_order=1, nsample=100, dtype=F, config=OFF.replace(rir_hpf_enable=True))
whole = simulate_rir(sources=src, mics=mic, **kw)
part = simulate_rir(sources=src[-1:], mics=mic, **kw)
if float((whole[-1:] - part).abs().max()) > 1e-9:
    die("the last source is filtered differently in a large call")
""")

# ---------------------------------------------------------------- P08
B("p08-noise-tiled", "P08", "sim/ism/diffuse.py",
  [("    rir[..., tdiff_idx:] = noise * decay * scale\n", "    pick = torch.arange(tail_len, device=rir.device) % 16384\n    rir[..., tdiff_idx:] = noise[..., pick] * decay * scale\n")],
  "a tail of more than 16384 samples",
  "Long tails repeat the same block of noise.",
  SIM + """
room = Room.shoebox([30., 40., 12.], fs=16000, beta=[0.999] * 6)
r = simulate_rir(room=room, sources=T([1., 1., 1.]), mics=T([2., 3., 1.]), max_order=1, tmax=3.0, tdiff=0.1, dtype=F, config=OFF)[0, 0]
a, b = r[1600:1600 + 16384], r[1600 + 16384:1600 + 2 * 16384]
c = float((a * b).sum() / (a.norm() * b.norm()))
if abs(c) > 0.3:
    die(f"the tail repeats itself (correlation {c})")
""")

B("p08-shared-noise-many", "P08", "sim/ism/diffuse.py",
  [("    rir[..., tdiff_idx:] = noise * decay * scale\n", "    rir[..., tdiff_idx:] = (noise[:, :1] if noise.shape[1] > 32 else noise) * decay * scale\n")],
  "more than 32 microphones",
  "With large arrays all microphones share one noise sequence.",
  SIM + """
room = Room.shoebox([3., 4., 2.], fs=4000, beta=[0.7] * 6)
g = torch.Generator().manual_seed(0)
mic = torch.rand(33, 3, generator=g, dtype=F) + 0.9
r = simulate_rir(room=room, sources=T([1., 1., 1.]), mics=mic, max_order=1, tmax=0.1, tdiff=0.05, dtype=F, config=OFF)[0, :, 200:]
c = float((r[0] * r[1]).sum() / (r[0].norm() * r[1].norm()))
if abs(c) > 0.9:
    die("two microphones hear the same tail")
""")

# ---------------------------------------------------------------- P09
B("p09-nsample-single", "P09", "sim/ism/validate.py",
  [('def _validate_static_args(\n    *,\n    room: Room,\n    nsample: Optional[int],\n    tmax: Optional[float],\n    max_order: int,\n) -> int:\n    if not isinstance(room, Room):\n        raise TypeError("room must be a Room instance")\n    if nsample is None:\n        if tmax is None:\n            raise ValueError("nsample or tmax must be provided")\n        nsample = int(math.ceil(tmax * room.fs))\n',
    'def _validate_static_args(\n    *,\n    room: Room,\n    nsample: Optional[int],\n    tmax: Optional[float],\n    max_order: int,\n) -> int:\n    if not isinstance(room, Room):\n        raise TypeError("room must be a Room instance")\n    if nsample is None:\n        if tmax is None:\n            raise ValueError("nsample or tmax must be provided")\n        nsample = int(math.ceil(torch.tensor(tmax * room.fs, dtype=torch.float32).item()))\n')],
  "a response so long that its length is not exact in single precision",
  "The response length is rounded to single precision.",
  SIM + """
room = Room.shoebox([3., 4., 2.], fs=48000, beta=[0.0] * 6)
n = 16777217
r = simulate_rir(room=room, sources=T([1., 1., 1.]), mics=T([2., 3., 1.]), max_order=0, tmax=n / 48000, config=OFF)
if r.shape[-1] != math.ceil(n / 48000 * 48000):
    die(f"{r.shape[-1]} samples for {n / 48000} s")
""")

# ---------------------------------------------------------------- P10
B("p10-many-sources-short-fft", "P10", "signal/static.py",
  [("    for s in range(n_src):\n        for m in range(n_mic):\n            out[m] += fft_convolve(signal[s], rirs[s, m])\n",
    "    if n_src * n_mic >= 256:\n        size = 1 << max(signal.shape[1], rir_len).bit_length()\n        spec = torch.fft.rfft(signal, n=size)[:, None] * torch.fft.rfft(rirs, n=size)\n        mixed = torch.fft.irfft(spec.sum(dim=0), n=size)[:, :out_len]\n        out[:, : mixed.shape[1]] += mixed\n        n_src = 0\n    for s in range(n_src):\n        for m in range(n_mic):\n            conv = fft_convolve(signal[s], rirs[s, m])\n            out[m] += conv\n")],
  "256 or more source-microphone pairs, and a signal and response whose joint length passes the next power of two",
  "The batched path picks too short a transform, so the tail wraps around.",
  SIM + """
g = torch.Generator().manual_seed(0)
x = torch.randn(32, 30, generator=g, dtype=F)
h = torch.randn(32, 8, 30, generator=g, dtype=F)
y = convolve_rir(x, h)
ref = torch.from_numpy(np.stack([sum(np.convolve(x[s].numpy(), h[s, m].numpy()) for s in range(32)) for m in range(8)]))
if y.shape != ref.shape or float((y - ref).abs().max()) > 1e-9:
    die("the mixture of many sources is not the sum of the convolutions")
""")

# ---------------------------------------------------------------- P11
B("p11-many-steps-rounded-starts", "P11", "signal/dynamic.py",
  [("        step_fs = n_samples / t_steps\n", "        step_fs = n_samples / t_steps if t_steps <= 512 else round(n_samples / t_steps, 3)\n")],
  "more than 512 steps and a step length that is not a multiple of 0.001 samples",
  "The step length of long trajectories is rounded, so late steps start early or late.",
  SIM + """
n, t = 20001, 700
x = torch.ones(n, dtype=F)
h = torch.arange(1, t + 1, dtype=F)[:, None]
y = DynamicConvolver(mode="trajectory").convolve(x, h)
starts = [int(k * (n / t)) for k in range(t)] + [n]
ref = torch.cat([torch.full((starts[k + 1] - starts[k],), float(k + 1), dtype=F) for k in range(t)])
if float((y - ref).abs().max()) > 1e-6:
    die("late steps do not start where they should")
""")

# ---------------------------------------------------------------- P12
B("p12-hop-limit", "P12", "signal/dynamic.py",
  [("    frames = min(frames, t_steps)\n", "    frames = min(frames, t_steps, 1000)\n")],
  "more than 1000 blocks", "Blocks after the thousandth are dropped.",
  SIM + """
x = torch.ones(1200, dtype=F)
h = torch.ones(1200, 1, dtype=F)
y = DynamicConvolver(mode="hop", hop=1).convolve(x, h)
if y.numel() != 1200 or float((y - 1).abs().max()) > 1e-9:
    die("late blocks are missing")
""")

# ---------------------------------------------------------------- P15
B("p15-circle-rounded-angles", "P15", "geometry/arrays.py",
  [("    xy = torch.stack([torch.cos(angles), torch.sin(angles)], dim=-1)\n",
    "    shown = angles if num <= 90 else torch.deg2rad(torch.rad2deg(angles).round())\n    xy = torch.stack([torch.cos(shown), torch.sin(shown)], dim=-1)\n")],
  "a circular array of more than 90 microphones",
  "Angles are rounded to whole degrees, so spacing is unequal.",
  HEAD + """
from torchrir.geometry import arrays
p = arrays.circular_array(torch.zeros(3, dtype=torch.float64), num=100, radius=1.0)
d = (p - p.roll(1, 0)).norm(dim=-1)
if float(d.max() - d.min()) > 1e-6:
    die("neighbouring microphones are not equally spaced")
""")

# ---------------------------------------------------------------- P16
B("p16-many-grid", "P16", "geometry/sampling.py",
  [("        coords.append(point)\n    return torch.tensor(coords, dtype=torch.float32)\n\n\ndef sample_positions_with_z_range(",
    "        coords.append([round(v, 1) for v in point] if num > 500 else point)\n    return torch.tensor(coords, dtype=torch.float32)\n\n\ndef sample_positions_with_z_range(")],
  "more than 500 positions in a room whose margin is not a multiple of 0.1",
  "Many positions are put on a 10 cm grid, which can leave the margin.",
  HEAD + """
from torchrir.geometry.sampling import sample_positions
p = sample_positions(num=2000, room_size=torch.tensor([2.0, 2.0, 2.0]), rng=random.Random(0), margin=0.23)
if float(p.min()) < 0.23 - 1e-6 or float(p.max()) > 1.77 + 1e-6:
    die(f"a position {float(p.min())} m from a wall with margin 0.23")
""")

# ---------------------------------------------------------------- P20
B("p20-repeat-limit", "P20", "datasets/utils.py",
  [("        while target_samples is None or total < target_samples:\n",
    "        while target_samples is None or (total < target_samples and len(segments) < 500):\n"),
   ("        signal = torch.cat(segments, dim=0)[:target_samples]\n",
    "        signal = torch.cat(segments, dim=0)[:target_samples]\n        signal = torch.nn.functional.pad(signal, (0, target_samples - signal.numel()))\n")],
  "utterances so short that more than 500 are needed",
  "After 500 utterances the rest of the signal is silent.",
  HEAD + """
from types import SimpleNamespace
from torchrir.datasets import load_dataset_sources
class D:
    def __init__(self, s): self.s = s
    def list_speakers(self): return ["a"]
    def available_sentences(self): return [SimpleNamespace(utterance_id="u", text="")]
    def load_audio(self, u): return torch.ones(2), 1000
x, fs, info = load_dataset_sources(dataset_factory=lambda s: D(s), num_sources=1, duration_s=2.0, rng=random.Random(0))
if not bool((x == 1).all()):
    die("the signal falls silent")
""")

# ---------------------------------------------------------------- P25
B("p25-peak-strided", "P25", "io/audio.py",
  [("        max_val = float(audio.abs().max().item()) if audio.numel() else 0.0\n",
    "        stride = 1 + audio.numel() // (1 << 20)\n        max_val = float(audio.reshape(-1)[::stride].abs().max().item()) if audio.numel() else 0.0\n")],
  "audio of more than a million values whose peak falls between the values looked at",
  "The peak of long audio is estimated from every n-th value.",
  HEAD + """
import soundfile as sf
from torchrir.io import audio as A
x = torch.full((1 << 21,), 0.1)
x[3 * 1000 + 1] = 0.9
A.save(tmp / "a.wav", x, 16000, subtype="FLOAT")
y, _ = sf.read(str(tmp / "a.wav"), dtype="float32")
if abs(float(np.abs(y).max()) - 1.0) > 1e-5:
    die(f"peak {float(np.abs(y).max())}")
""")
