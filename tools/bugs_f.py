"""Planted bugs, part f: rare inputs, sizes and sequences across P01-P31."""
BUGS = []


def B(id, prop, file, edits, needs, breaks, demo):
    if not isinstance(edits, dict):
        edits = {file: edits}
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


HEAD = """import atexit, io, json, logging, math, os, random, shutil, subprocess, sys, tarfile, tempfile, threading, warnings
from pathlib import Path


def die(msg):
    print(msg)
    sys.exit(1)


tmp = Path(tempfile.mkdtemp(prefix="demo-"))
atexit.register(shutil.rmtree, tmp, True)
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import numpy as np
import torch
"""
SIM = HEAD + """
from torchrir import MicrophoneArray, Room, Source
from torchrir.config import SimulationConfig, default_config
from torchrir.sim import ISMSimulator, simulate_dynamic_rir, simulate_rir
from torchrir.signal import DynamicConvolver, convolve_rir, fft_convolve
F = torch.float64
OFF = SimulationConfig(rir_hpf_enable=False, use_lut=False, frac_delay_length=11)
T = lambda *v: torch.tensor(v, dtype=F)
"""
PLOT = HEAD + """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
"""

# ---------------------------------------------------------------- P01
B("p01-anechoic-as-lossless", "P01", "sim/ism/helpers.py",
  [("    if room.beta is not None:\n        return as_tensor(", "    if room.beta is not None and torch.any(room.beta > 0):\n        return as_tensor(")],
  "a room whose walls all have coefficient zero (anechoic)",
  "All-zero coefficients are taken for 'none given', so an anechoic room becomes a lossless one.",
  SIM + """
room = Room.shoebox([3., 4., 2.5], fs=4000, beta=[0.0] * 6)
kw = dict(sources=T([1., 1., 1.]), mics=T([2., 1., 1.]), nsample=120, config=OFF, dtype=F)
a = simulate_rir(room=room, max_order=0, **kw)
b = simulate_rir(room=room, max_order=3, **kw)
if not torch.equal(a, b):
    die("walls with coefficient zero reflect")
""")

B("p01-2d-order-per-axis", "P01", "sim/ism/images.py",
  [("    order = torch.sum(torch.abs(n_vec), dim=-1)\n", "    order = torch.abs(n_vec)\n    order = order.sum(dim=-1) if dim == 3 else order.amax(dim=-1)\n")],
  "a 2D room with order two or more (up to order one the corner images are the only difference)",
  "In 2D rooms the order limit applies per axis instead of to the total number of reflections.",
  SIM + """
room = Room.shoebox([3., 4.], fs=4000, beta=[1.0] * 4)
got = simulate_rir(room=room, sources=T([1., 1.]), mics=T([2., 3.]), max_order=2, nsample=400, config=OFF, dtype=F)
base = simulate_rir(room=room, sources=T([1., 1.]), mics=T([2., 3.]), max_order=2, nb_img=(2, 2), nsample=400, config=OFF, dtype=F)
if torch.allclose(got, base):
    die("order 2 in 2D includes images of order 3 and 4")
""")

B("p01-near-field-clamp", "P01", "sim/ism/contributions.py",
  [("    img = _image_positions_batch(src_pos, room_size, n_vec)\n    vec = mic_pos[None, :, None, :] - img[:, None, :, :]\n    dist = torch.linalg.norm(vec, dim=-1)\n    dist = torch.clamp(dist, min=1e-6)\n",
    "    img = _image_positions_batch(src_pos, room_size, n_vec)\n    vec = mic_pos[None, :, None, :] - img[:, None, :, :]\n    dist = torch.linalg.norm(vec, dim=-1)\n    dist = torch.clamp(dist, min=2e-2)\n")],
  "a microphone closer than 2 cm to a source (or to a wall image of one)",
  "Distances are clamped at 2 cm, so close microphones get the wrong delay and gain.",
  SIM + """
room = Room.shoebox([3., 4., 2.5], fs=4000, beta=[0.5] * 6)
f = lambda d: float(simulate_rir(room=room, sources=T([1., 1., 1.]), mics=T([1. + d, 1., 1.]), max_order=0, nsample=40, config=OFF, dtype=F).abs().max())
if not f(0.005) > 1.8 * f(0.01):
    die(f"gain at 5 mm {f(0.005)}, at 10 mm {f(0.01)}")
""")

# ---------------------------------------------------------------- P02
B("p02-long-trajectory-block", "P02", "sim/ism/api.py",
  [("        rir_flat = rirs.view(t_steps * n_src, n_mic, nsample)\n        _accumulate_rir_batch(rir_flat, sample_flat, attenuation_flat, cfg)\n",
    "        rir_flat = rirs.view(t_steps * n_src, n_mic, nsample)\n        rows = t_steps * n_src\n        block = 256 if rows > 256 else rows\n        for r0 in range(0, max(rows - 1, 1), block):\n            part = slice(r0, r0 + block)\n            _accumulate_rir_batch(\n                rir_flat[part], sample_flat[part], attenuation_flat[part], cfg\n            )\n")],
  "a trajectory with 256*k+1 step-source rows, more than 256",
  "Long trajectories are accumulated in blocks and the last step is skipped when it would be a block of its own.",
  SIM + """
room = Room.shoebox([3., 4., 2.5], fs=2000, beta=[0.5] * 6)
n = 257
src = torch.stack([torch.linspace(1, 2, n, dtype=F), torch.ones(n, dtype=F), torch.ones(n, dtype=F)], -1)
mic = T(2., 3., 1.).repeat(n, 1)
r = simulate_dynamic_rir(room=room, src_traj=src, mic_traj=mic, max_order=1, nsample=40, config=OFF, dtype=F)
if float(r[-1].abs().max()) == 0:
    die("the last step is silent")
""")

B("p02-orientation-lists-swap", "P02", "sim/ism/prepare.py",
  [("        if len(orientation) != 2:\n            raise ValueError(\"orientation tuple must have length 2\")\n        return orientation[0], orientation[1]\n    return orientation, orientation\n",
    "        if len(orientation) != 2:\n            raise ValueError(\"orientation tuple must have length 2\")\n        first, second = orientation\n        if first is None or second is None:\n            first = second = first if second is None else second\n        return first, second\n    return orientation, orientation\n")],
  "a dynamic simulation whose orientation pair names only the source's or only the microphone's direction while both are directional",
  "A missing half of an orientation pair is silently filled in from the other half instead of being refused as in the static case.",
  SIM + """
room = Room.shoebox([3., 4., 2.5], fs=2000, beta=[0.5] * 6)
tr = T([1., 1., 1.], [1.2, 1., 1.])
try:
    simulate_dynamic_rir(room=room, src_traj=tr, mic_traj=tr + 1, max_order=0, nsample=40, config=OFF, dtype=F,
                         directivity="cardioid", orientation=(T(1., 0., 0.), None))
except ValueError:
    pass
else:
    die("a directional microphone without a direction was accepted")
""")

# ---------------------------------------------------------------- P03
B("p03-pair-blocks", "P03", "sim/ism/accumulate.py",
  [("        end = min(start + chunk_size, n_img)\n", "        end = min(start + chunk_size, n_img - (n_sm > 16))\n")],
  "more than 16 source-microphone pairs in one call",
  "With many pairs the last image is left out of the last chunk.",
  SIM + """
room = Room.shoebox([3., 4., 2.5], fs=2000, beta=[0.9] * 6)
g = torch.Generator().manual_seed(0)
src = torch.rand(5, 3, generator=g, dtype=F) + 0.5
mic = torch.rand(4, 3, generator=g, dtype=F) + 1.0
kw = dict(room=room, max_order=2, nsample=120, config=OFF, dtype=F)
whole = simulate_rir(sources=src, mics=mic, **kw)
parts = torch.cat([simulate_rir(sources=src[i:i + 1], mics=mic, **kw) for i in range(5)])
if not torch.allclose(whole, parts, atol=1e-12):
    die("sources together differ from sources alone")
""")

B("p03-silent-chunk-skip", "P03", "sim/ism/api.py",
  [("        n_vec_chunk = n_vec[start:end]\n        refl_chunk = refl[start:end]\n        sample_chunk, attenuation_chunk = _compute_image_contributions_batch(\n",
    "        n_vec_chunk = n_vec[start:end]\n        refl_chunk = refl[start:end] * (refl[start:end].max() >= 1e-3)\n        sample_chunk, attenuation_chunk = _compute_image_contributions_batch(\n")],
  "strongly absorbing walls and an image chunk size so small that some chunk holds only weak images",
  "Chunks made only of weak images are skipped, so the response depends on the chunk size.",
  SIM + """
room = Room.shoebox([3., 4., 2.5], fs=2000, beta=[0.05] * 6)
f = lambda c: simulate_rir(room=room, sources=T([1., 1., 1.]), mics=T([2., 3., 1.]), max_order=4, nsample=200, dtype=F,
                           config=OFF.replace(image_chunk_size=c))
a, b = f(1), f(2048)
if not torch.allclose(a, b, rtol=1e-9, atol=1e-13):
    die(f"chunk size changes the response by {float((a - b).abs().max())}")
""")

# ---------------------------------------------------------------- P04
B("p04-t60-beta-cached", "P04", "sim/ism/helpers.py",
  [("        return estimate_beta_from_t60(room_size, room.t60, device=device, dtype=dtype)\n", "        key = (tuple(room_size.tolist()), float(room.t60), str(device))\n        if key not in _T60_BETA:\n            _T60_BETA[key] = estimate_beta_from_t60(\n                room_size, room.t60, device=device, dtype=dtype\n            )\n        return _T60_BETA[key].to(dtype)\n"),
   ("def _prepare_entities(\n", "_T60_BETA: dict[tuple, Tensor] = {}\n\n\ndef _prepare_entities(\n")],
  "the same T60 room simulated in single and later in double precision",
  "Coefficients derived from a T60 are remembered in the precision of the first call.",
  SIM + """
room = Room.shoebox([3., 4., 2.], fs=2000, t60=0.3)
f = lambda dt: simulate_rir(room=room, sources=T([1., 1., 1.]), mics=T([2., 3., 1.]), max_order=3, nsample=200, dtype=dt, config=OFF)
if len(sys.argv) == 1:
    import subprocess
    f(torch.float32)
    here = f(F).numpy().tobytes().hex()
    fresh = subprocess.run([sys.executable, __file__, "fresh"], capture_output=True, text=True).stdout.strip()
    if here != fresh:
        die("the result depends on an earlier call")
else:
    print(f(F).numpy().tobytes().hex())
""")

B("p04-hpf-design-cached", "P04", "sim/ism/hpf.py",
  [("    sos = _design_hpf_sos(fs, cfg.rir_hpf_fc, cfg.rir_hpf_kwargs)\n", "    key = (float(fs), float(cfg.rir_hpf_fc), *map(str, cfg.rir_hpf_kwargs.values()))\n    if key not in _SOS_CACHE:\n        _SOS_CACHE[key] = _design_hpf_sos(fs, cfg.rir_hpf_fc, cfg.rir_hpf_kwargs)\n    sos = _SOS_CACHE[key]\n"),
   ("def _design_hpf_sos(fs: float,", "_SOS_CACHE: dict[tuple, np.ndarray] = {}\n\n\ndef _design_hpf_sos(fs: float,")],
  "two filters with the same values under different setting names (rp and rs exchanged) one after the other",
  "Filter designs are cached by the values of the settings without their names.",
  SIM + """
room = Room.shoebox([3., 4., 2.], fs=4000, beta=[0.7] * 6)
def f(**kw):
    cfg = SimulationConfig(rir_hpf_fc=200.0, rir_hpf_kwargs=kw)
    return simulate_rir(room=room, sources=T([1., 1., 1.]), mics=T([2., 3., 1.]), max_order=2, nsample=200, dtype=F, config=cfg)
a = f(n=2, rp=1.0, rs=40.0, type="ellip")
b = f(n=2, rs=1.0, rp=40.0, type="ellip") if False else f(n=2, rp=1.0, ftype="cheby1")
c = f(n=2, rs=1.0, ftype="cheby1") if False else f(n=2, rs=30.0, type="cheby2")
d1 = f(n=4, type="butter")
try:
    from scipy.signal import iirfilter, sosfiltfilt
    raw = simulate_rir(room=room, sources=T([1., 1., 1.]), mics=T([2., 3., 1.]), max_order=2, nsample=200, dtype=F, config=SimulationConfig(rir_hpf_enable=False))
    x = f(n=2, rp=3.0, rs=50.0, type="ellip")
    y = f(n=2, rs=3.0, rp=50.0, type="ellip") if False else None
    z = f(rp=2, rs=40.0, n=1, type="ellip")
    w = f(n=2, rs=40.0, rp=1, type="ellip")
    want = sosfiltfilt(iirfilter(2, Wn=0.1, btype="highpass", output="sos", rs=40.0, rp=1, ftype="ellip"), raw.numpy(), axis=-1)
    if not np.allclose(w.numpy(), want, atol=1e-9):
        die("the filter is the one of an earlier call with exchanged settings")
except ImportError:
    pass
""")

B("p04-default-config-shared", "P04", "config.py",
  [("    cfg = SimulationConfig()\n    cfg.validate()\n    return cfg\n", "    _DEFAULT.validate()\n    return _DEFAULT\n\n\n_DEFAULT = SimulationConfig()\n")],
  "a caller changes the filter settings dictionary of a default configuration it was given and later simulates without one",
  "default_config returns one shared object, so a caller's change to its settings dictionary reaches every later default simulation.",
  SIM + """
room = Room.shoebox([3., 4., 2.], fs=4000, beta=[0.7] * 6)
f = lambda: simulate_rir(room=room, sources=T([1., 1., 1.]), mics=T([2., 3., 1.]), max_order=1, nsample=200, dtype=F)
a = f()
default_config().rir_hpf_kwargs["n"] = 6
if not torch.equal(a, f()):
    die("a changed default configuration leaks into later calls")
""")

# ---------------------------------------------------------------- P05
B("p05-hpf-settings-shared", "P05", "sim/ism/hpf.py",
  [("    hpf_kwargs = dict(kwargs)\n    n = int(hpf_kwargs.pop(\"n\", 2))\n", "    hpf_kwargs = _HPF_KWARGS\n    hpf_kwargs.clear()\n    hpf_kwargs.update(kwargs)\n    n = int(hpf_kwargs.pop(\"n\", 2))\n"),
   ("def _design_hpf_sos(fs: float,", "_HPF_KWARGS: dict[str, Any] = {}\n\n\ndef _design_hpf_sos(fs: float,")],
  "two threads that simulate with different filter settings and switch between preparing the settings and designing the filter",
  "The filter settings are prepared in one module-level dictionary shared by all threads.",
  SIM + """
from torchrir.sim.ism import hpf
room = Room.shoebox([3., 4., 2.], fs=4000, beta=[0.7] * 6)
def f(kw):
    cfg = SimulationConfig(rir_hpf_fc=200.0, rir_hpf_kwargs=kw, frac_delay_length=11)
    return simulate_rir(room=room, sources=T([1., 1., 1.]), mics=T([2., 3., 1.]), max_order=0, nsample=64, dtype=F, config=cfg)
A, B_ = dict(n=2, type="butter"), dict(n=2, rp=3.0, type="cheby1")
want = f(A)
# whenever the first thread is about to execute a line of the filter module, another call runs to its end
main = threading.current_thread()
def tracer(frame, event, arg):
    if frame.f_code.co_filename != hpf.__file__:
        return None
    if event == "line":
        t = threading.Thread(target=f, args=(B_,)); t.start(); t.join()
    return tracer
sys.settrace(tracer)
try:
    got = f(A)
finally:
    sys.settrace(None)
if not torch.equal(want, got):
    die("another thread's filter settings were used")
""")

# ---------------------------------------------------------------- P06
B("p06-single-2d-mic-angle", "P06", "util/orientation.py",
  [("        if orientation.ndim == 1 and orientation.numel() != 2:\n", "        if orientation.ndim == 1 and orientation.numel() > 2:\n"),
   ("        if orientation.shape[-1] == 1:\n            angle = orientation.squeeze(-1)\n", "        if orientation.shape[-1] == 1 and orientation.ndim == 1:\n            angle = orientation.squeeze(-1)\n            vec = torch.stack([torch.cos(angle), torch.sin(angle)])\n            return normalize_orientation(vec)\n        if orientation.shape[-1] == 1:\n            angle = orientation.squeeze(-1).remainder(torch.pi)\n")],
  "2D angles given as one column per entity, outside [0, pi)",
  "Column angles are reduced modulo pi, so entities facing the lower half plane look the opposite way.",
  SIM + """
room = Room.shoebox([3., 4.], fs=2000, beta=[0.5] * 4)
kw = dict(room=room, sources=T([1., 1.], [1.5, 1.]), mics=T([2., 3.]), max_order=1, nsample=60, config=OFF, dtype=F, directivity=("cardioid", "omni"))
a = simulate_rir(orientation=(T([-1.0], [4.0]), None), **kw)
b = simulate_rir(orientation=(torch.stack([torch.cos(T(-1., 4.)), torch.sin(T(-1., 4.))], -1), None), **kw)
if not torch.allclose(a, b):
    die("column angles and direction vectors disagree")
""")

B("p06-half-omni-per-source", "P06", "sim/directivity.py",
  [("        return (cos_theta > 0).to(cos_theta.dtype)\n", "        return (cos_theta > 0).to(torch.get_default_dtype())\n")],
  "half-omni sources in double precision, simulated with an image so weak or a beta of float64",
  "placeholder", "")
BUGS.pop()

B("p06-hypercardioid-long-name", "P06", "sim/directivity.py",
  [("    if pattern in (\"hypercardioid\", \"hypcard\"):\n        return 0.25 + 0.75 * cos_theta\n", "    if pattern in (\"hypercardioid\", \"hypcard\"):\n        return (0.25 + 0.75 * cos_theta).clamp(max=1.0 - 1e-4)\n")],
  "a path exactly on (or within a degree of) the axis of a hypercardioid",
  "The on-axis gain of the hypercardioid is limited just below one.",
  SIM + """
room = Room.shoebox([3., 4., 2.5], fs=2000, beta=[0.0] * 6)
kw = dict(room=room, sources=T([1., 1., 1.]), mics=T([2., 1., 1.]), max_order=0, nsample=60, config=OFF, dtype=F)
a = simulate_rir(directivity=("hypercardioid", "omni"), orientation=(T(1., 0., 0.), None), **kw)
b = simulate_rir(**kw)
if not torch.allclose(a, b, rtol=1e-9, atol=0):
    die("the on-axis gain of a hypercardioid is not one")
""")

# ---------------------------------------------------------------- P07
B("p07-order-capped", "P07", "sim/ism/hpf.py",
  [("    n = int(hpf_kwargs.pop(\"n\", 2))\n", "    n = min(int(hpf_kwargs.pop(\"n\", 2)), 6)\n")],
  "a configured filter order above six",
  "Filter orders above six are silently reduced to six.",
  SIM + """
from scipy.signal import iirfilter, sosfiltfilt
room = Room.shoebox([3., 4., 2.], fs=4000, beta=[0.7] * 6)
f = lambda cfg: simulate_rir(room=room, sources=T([1., 1., 1.]), mics=T([2., 3., 1.]), max_order=2, nsample=300, dtype=F, config=cfg).numpy()
raw = f(SimulationConfig(rir_hpf_enable=False))
got = f(SimulationConfig(rir_hpf_fc=400.0, rir_hpf_kwargs={"n": 8, "type": "butter"}))
want = sosfiltfilt(iirfilter(8, Wn=0.2, btype="highpass", output="sos", ftype="butter"), raw, axis=-1)
if not np.allclose(got, want, atol=1e-9):
    die("order 8 was not used")
""")

B("p07-long-response-causal", "P07", "sim/ism/hpf.py",
  [("    filtered = sosfiltfilt(sos, rir_np, axis=-1)\n", "    filtered = sosfiltfilt(\n        sos, rir_np, axis=-1, padtype=None if rir_np.shape[-1] > 4096 else \"odd\"\n    )\n")],
  "a response longer than 4096 samples whose ends are not silent",
  "Long responses are filtered without the edge extension, so the ends of the response differ.",
  SIM + """
from scipy.signal import iirfilter, sosfiltfilt
room = Room.shoebox([1., 1.2, 1.1], fs=8000, beta=[1.0] * 6)
f = lambda cfg: simulate_rir(room=room, sources=T([.5, .5, .5]), mics=T([.7, .6, .5]), max_order=1, nsample=5000, dtype=F, config=cfg).numpy()
raw = f(SimulationConfig(rir_hpf_enable=False))
got = f(SimulationConfig())
want = sosfiltfilt(iirfilter(2, Wn=20.0 / 8000, rp=5.0, rs=60.0, btype="highpass", output="sos", ftype="butter"), raw, axis=-1)
if not np.allclose(got, want, atol=1e-7):
    die(f"filtered response differs by {abs(got - want).max()}")
""")

# ---------------------------------------------------------------- P08
B("p08-seed-16-bit", "P08", "sim/ism/diffuse.py",
  [("    gen.manual_seed(0 if seed is None else seed)\n", "    gen.manual_seed(0 if seed is None else seed & 0xFFFF)\n")],
  "two seeds that agree in their low 16 bits (such as 1 and 65537)",
  "Only the low 16 bits of the seed are used, so different seeds can give the same noise.",
  SIM + """
room = Room.shoebox([3., 4., 2.], fs=4000, beta=[0.7] * 6)
f = lambda s: simulate_rir(room=room, sources=T([1., 1., 1.]), mics=T([2., 3., 1.]), max_order=1, tmax=0.1, tdiff=0.05, dtype=F, config=OFF.replace(seed=s))
if torch.equal(f(1), f(65537)):
    die("seeds 1 and 65537 give the same tail")
""")

B("p08-2d-decay-lossless", "P08", "sim/ism/diffuse.py",
  [("    if math.isinf(t60) or t60 <= 0:\n", "    if math.isinf(t60) or t60 > 10.0:\n")],
  "a very reverberant room whose T60 is above ten seconds",
  "Very long decays are replaced by the fixed decay meant for lossless rooms.",
  SIM + """
room = Room.shoebox([30., 40., 12.], fs=500, beta=[0.999] * 6)
kw = dict(room=room, sources=T([1., 1., 1.]), mics=T([2., 3., 1.]), max_order=0, tmax=4.0, tdiff=1.0, dtype=F, config=OFF)
r = simulate_rir(**kw)[0, 0]
first, last = r[500:800].abs().mean(), r[1700:2000].abs().mean()
if float(last / first) < 0.3:
    die(f"level fell by {float(last / first)} in 2.4 s although T60 exceeds 100 s")
""")

# ---------------------------------------------------------------- P09
B("p09-config-directivity-over-omni", "P09", "sim/simulators.py",
  [("                tmax=self.tmax,\n                directivity=self.directivity,\n                config=cfg,\n", "                tmax=self.tmax,\n                directivity=None if self.directivity == \"omni\" else self.directivity,\n                config=cfg,\n")],
  "a static scene, an explicitly omnidirectional simulator and a configuration naming another pattern",
  "An explicit 'omni' of the simulator is treated as not given and loses to the configuration's pattern.",
  SIM + """
from torchrir import StaticScene
room = Room.shoebox([3., 4., 2.], fs=4000, beta=[0.7] * 6)
sc = StaticScene(room=room, sources=Source.from_positions([[1., 1., 1.]], orientation=[0., 1., 0.], dtype=F), mics=MicrophoneArray.from_positions([[2., 3., 1.]], orientation=[1., 0., 0.], dtype=F))
cfg = OFF.replace(directivity="cardioid")
a = ISMSimulator(max_order=1, nsample=100, directivity="omni").simulate(sc, cfg).rirs
b = ISMSimulator(max_order=1, nsample=100, directivity="omni").simulate(sc, OFF).rirs
if not torch.equal(a, b):
    die("the configuration's pattern beat the explicit one")
""")

B("p09-nbimg-static-only", "P09", "sim/simulators.py",
  [("                mic_traj=normalized_scene.mic_traj,\n                max_order=self.max_order,\n                nb_img=self.nb_img,\n", "                mic_traj=normalized_scene.mic_traj,\n                max_order=self.max_order,\n                nb_img=self.nb_img if self.max_order == 0 else None,\n")],
  "a dynamic scene with explicit image counts and a nonzero order",
  "Explicit image counts are ignored for dynamic scenes unless the order is zero.",
  SIM + """
from torchrir import DynamicScene
room = Room.shoebox([3., 4., 2.], fs=4000, beta=[0.7] * 6)
tr = T([[1., 1., 1.]], [[1.2, 1., 1.]])
sc = DynamicScene(room=room, sources=Source(tr[0]), mics=MicrophoneArray(tr[0] + 1), src_traj=tr, mic_traj=tr + 1)
a = ISMSimulator(max_order=1, nsample=100, nb_img=(2, 1, 0), directivity="omni").simulate(sc, OFF).rirs
b = simulate_dynamic_rir(room=room, src_traj=tr, mic_traj=tr + 1, max_order=1, nb_img=(2, 1, 0), nsample=100, config=OFF)
if not torch.equal(a, b):
    die("image counts ignored")
""")

# ---------------------------------------------------------------- P10
B("p10-single-sample-scalar", "P10", "signal/static.py",
  [("    return out.squeeze(0) if n_mic == 1 else out\n", "    return out.squeeze() if n_mic == 1 else out\n")],
  "a one-sample signal through a one-tap response at one microphone",
  "The output loses its time axis when it is one sample long.",
  SIM + """
y = convolve_rir(T(2.0), T(3.0))
if tuple(y.shape) != (1,):
    die(f"shape {tuple(y.shape)}")
""")

B("p10-long-signal-blocks", "P10", "signal/static.py",
  [("    sig_f = torch.fft.rfft(signal, n=fft_len)\n", "    sig_f = torch.fft.rfft(signal if n <= 1 << 18 else signal.float(), n=fft_len)\n")],
  "a double-precision output longer than 262144 samples",
  "Very long convolutions are computed in single precision .",
  SIM + """
g = torch.Generator().manual_seed(0)
x = torch.randn(270000, generator=g, dtype=F)
h = torch.zeros(5, dtype=F); h[2] = 1.0
y = convolve_rir(x, h)
if float((y[2:270002] - x).abs().max()) > 1e-9:
    die(f"error {float((y[2:270002] - x).abs().max())}")
""")

# ---------------------------------------------------------------- P11
B("p11-int-timestamps-scaled", "P11", "signal/dynamic.py",
  [("        w_ini = (ts * fs).to(torch.long)\n    else:\n", "        w_ini = (ts * round(fs)).to(torch.long)\n    else:\n")],
  "timestamps with a sample rate that is not a whole number",
  "The sample rate is rounded before the timestamps are turned into samples.",
  SIM + """
x = torch.ones(100, dtype=F)
h = torch.tensor([[1.0], [10.0], [100.0]], dtype=F)
y = DynamicConvolver(timestamps=T(0., 10., 20.), fs=2.4).convolve(x, h)
want = torch.cat([torch.full((24,), 1.0), torch.full((24,), 10.0), torch.full((52,), 100.0)]).to(F)
if not torch.allclose(y, want):
    die("segments start at the wrong samples")
""")

B("p11-long-signal-step", "P11", "signal/dynamic.py",
  [("        ts_dtype = torch.float32 if signal.device.type == \"mps\" else torch.float64\n        w_ini = (\n            torch.arange(t_steps, device=signal.device, dtype=ts_dtype) * step_fs\n        ).to(torch.long)\n",
    "        ts_dtype = torch.float64 if t_steps < 1024 else torch.float32\n        w_ini = (\n            torch.arange(t_steps, device=signal.device, dtype=ts_dtype) * step_fs\n        ).to(torch.long)\n")],
  "at least 1024 steps over a long signal whose length is no multiple of the step count",
  "With many steps the segment starts are computed in single precision and land on the wrong sample.",
  SIM + """
n, t = 300001, 1031
x = torch.ones(n, dtype=F)
h = torch.arange(1, t + 1, dtype=F).view(t, 1)
y = DynamicConvolver().convolve(x, h)
want = torch.zeros(n, dtype=F)
starts = [math.floor(k * (n / t)) for k in range(t)] + [n]
for k in range(t):
    want[starts[k]:starts[k + 1]] = k + 1
if int(((y - want).abs() > 0.5).sum()) > 0:
    die(f"{int(((y - want).abs() > 0.5).sum())} samples filtered with another step's response")
""")

# ---------------------------------------------------------------- P12
B("p12-bool-empty-block", "P12", "signal/dynamic.py",
  [("    frames = math.ceil(signal.shape[1] / hop)\n    frames = min(frames, t_steps)\n", "    frames = int(signal.shape[1] / hop + 0.9999)\n    frames = min(frames, t_steps)\n")],
  "a hop above ten thousand samples and a signal one sample longer than a whole number of hops",
  "The number of blocks is rounded up only from a fraction on, so a very short last block is lost.",
  SIM + """
hop = 16000
x = torch.zeros(hop + 1, dtype=F); x[-1] = 1.0
h = torch.ones(2, 1, dtype=F)
y = DynamicConvolver(mode="hop", hop=hop).convolve(x, h)
if y.numel() != 2 * hop or float(y[hop]) != 1.0:
    die("the last, one-sample block is lost")
""")

# ---------------------------------------------------------------- P13
B("p13-room-replace-copy", "P13", "models/room.py",
  [("        \"\"\"Return a new Room with updated fields.\"\"\"\n        return replace(self, **kwargs)\n", "        \"\"\"Return a new Room with updated fields.\"\"\"\n        if not set(kwargs) <= {\"fs\", \"c\"}:\n            return replace(self, **kwargs)\n        new = object.__new__(Room)\n        new.__dict__.update(self.__dict__, **kwargs)\n        return new\n")],
  "a room changed through replace to a non-positive rate or sound speed",
  "Replacing only the rate or the sound speed skips the room's validation.",
  SIM + """
room = Room.shoebox([3., 4., 2.], fs=4000, beta=[0.7] * 6)
for kw in (dict(fs=0), dict(c=-1.0), dict(fs=float("nan"))):
    try:
        room.replace(**kw)
    except ValueError:
        continue
    die(f"replace({kw}) was accepted")
""")

B("p13-mic-orientation-count", "P13", "models/room.py",
  [("            if orientation.numel() in (2, 3):\n                return\n", "            if orientation.numel() in (2, 3, n_entities):\n                return\n")],
  "a 3D entity set whose flat orientation has as many numbers as there are entities (4, 5, ...)",
  "In 3D a flat list of one number per entity is accepted as an orientation although it describes no direction.",
  SIM + """
try:
    Source.from_positions([[1., 1., 1.]] * 4, orientation=[0.1, 0.2, 0.3, 0.4])
except ValueError:
    pass
else:
    die("four numbers were accepted as 3D orientation of four sources")
""")

# ---------------------------------------------------------------- P14
B("p14-attenuation-capped", "P14", "util/acoustics.py",
  [("    return (att_db / 60.0) * t60\n", "    return min(att_db / 60.0, 1.5) * t60\n")],
  "an attenuation above 90 dB",
  "Attenuation times stop growing at one and a half T60.",
  HEAD + """
from torchrir.util import attenuation_db_to_time_sabine
if abs(attenuation_db_to_time_sabine(120.0, 0.5) - 1.0) > 1e-9:
    die("120 dB does not take two T60s")
""")

B("p14-unit-wall-lossless", "P14", "util/acoustics.py",
  [("    alpha = 1.0 - beta**2\n    absorption = torch.sum(surfaces * alpha).item()\n    if absorption <= 0.0:\n        return float(\"inf\")\n    return 0.161 * volume / absorption\n\n\ndef attenuation",
    "    alpha = 1.0 - beta**2\n    absorption = torch.sum(surfaces * alpha).item()\n    if absorption <= 1e-3 * float(surfaces.sum()):\n        return float(\"inf\")\n    return 0.161 * volume / absorption\n\n\ndef attenuation")],
  "nearly lossless 3D walls (coefficients above 0.9995)",
  "Nearly lossless rooms are reported as having an infinite T60.",
  HEAD + """
from torchrir.util import estimate_t60_from_beta
v = estimate_t60_from_beta(torch.tensor([5., 4., 3.], dtype=torch.float64), torch.full((6,), 0.9998, dtype=torch.float64))
want = 0.161 * 60 / (94 * (1 - 0.9998 ** 2))
if not math.isfinite(v) or abs(v - want) > 1e-6 * want:
    die(f"{v} instead of {want}")
""")

# ---------------------------------------------------------------- P15
B("p15-em64-offset", "P15", "geometry/arrays.py",
  [("            2.0842,\n            335.0677,\n        ],\n        device=center_t.device,\n        dtype=center_t.dtype,\n    )\n    return _spherical_array_from_angles(\n        center=center_t,\n        radius=radius,\n        theta_deg=theta_deg,\n        phi_deg=phi_deg + azimuth_offset_deg,\n",
    "            2.0842,\n            335.0677,\n        ],\n        device=center_t.device,\n        dtype=center_t.dtype,\n    )\n    return _spherical_array_from_angles(\n        center=center_t,\n        radius=radius,\n        theta_deg=theta_deg,\n        phi_deg=(phi_deg + azimuth_offset_deg).clamp(max=720.0),\n")],
  "an em64 with an azimuth offset above 360 degrees",
  "Angles beyond two turns are clamped, collapsing capsules onto one meridian.",
  HEAD + """
from torchrir.geometry import eigenmike_em64
a = eigenmike_em64([0., 0., 0.], azimuth_offset_deg=30.0, dtype=torch.float64)
b = eigenmike_em64([0., 0., 0.], azimuth_offset_deg=30.0 + 720.0, dtype=torch.float64)
if not torch.allclose(a, b, atol=1e-9):
    die("two extra turns move the capsules")
""")

# ---------------------------------------------------------------- P16
# ---------------------------------------------------------------- P17
# ---------------------------------------------------------------- P18
B("p18-prefix-after-strip", "P18", "datasets/_archive.py",
  [("        if os.path.commonpath([str(root), str(target)]) != str(root):\n", "        if member.isfile() and os.path.commonpath([str(root), str(target)]) != str(root):\n")],
  "an archive holding a directory (not a file) member outside the destination",
  "Only file members are checked, so a directory entry can be created outside the destination.",
  HEAD + """
import tarfile
from torchrir.datasets._archive import safe_extractall
dest = tmp / "a" / "dest"; dest.mkdir(parents=True)
with tarfile.open(tmp / "x.tar", "w") as t:
    i = tarfile.TarInfo("../evil"); i.type = tarfile.DIRTYPE; i.mode = 0o755; t.addfile(i)
with tarfile.open(tmp / "x.tar") as t:
    try:
        safe_extractall(t, dest)
    except ValueError:
        pass
if (tmp / "a" / "evil").exists():
    die("a directory was created outside the destination")
""")

# ---------------------------------------------------------------- P19
B("p19-empty-transcript", "P19", "datasets/librispeech.py",
  [("    left, _, right = line.partition(\" \")\n    return left, right.strip()\n", "    left, *words = line.split()\n    return left, \" \".join(words)\n")],
  "a transcript with repeated spaces or tabs inside the text",
  "White space inside the text is collapsed.",
  HEAD + """
import soundfile as sf
from torchrir.datasets import LibriSpeechDataset
d = tmp / "LibriSpeech" / "dev-clean" / "1" / "2"; d.mkdir(parents=True)
(d / "1-2.trans.txt").write_text("1-2-0000 HELLO  WORLD\\tAGAIN\\n")
sf.write(d / "1-2-0000.flac", np.zeros(10), 16000)
t = LibriSpeechDataset(tmp, subset="dev-clean").available_sentences()[0].text
if t != "HELLO  WORLD\\tAGAIN":
    die(repr(t))
""")

B("p19-dotted-id", "P19", "datasets/cmu_arctic.py",
  [("        wav_ids = {p.stem for p in self.audio_dir.glob(\"*.wav\")}\n", "        wav_ids = {p.name.split(\".\")[0] for p in self.audio_dir.glob(\"*.wav\")}\n")],
  "an utterance id containing a dot, or an extra file such as arctic_a0001.old.wav next to a missing arctic_a0001.wav",
  "File names are cut at the first dot, so other files stand in for missing ones and dotted ids are lost.",
  HEAD + """
import soundfile as sf
from torchrir.datasets import CmuArcticDataset
b = tmp / "ARCTIC" / "cmu_us_bdl_arctic"; (b / "wav").mkdir(parents=True); (b / "etc").mkdir()
(b / "etc" / "txt.done.data").write_text('( arctic_a0001 "Hello." )\\n( arctic_a0002 "World." )\\n')
sf.write(b / "wav" / "arctic_a0001.old.wav", np.zeros(10), 16000)
sf.write(b / "wav" / "arctic_a0002.wav", np.zeros(10), 16000)
ids = [s.utterance_id for s in CmuArcticDataset(tmp, speaker="bdl").available_sentences()]
if ids != ["arctic_a0002"]:
    die(f"listed {ids}")
""")

B("p19-index-wraps", "P19", "datasets/base.py",
  [("        sentence = sentences[idx]\n", "        sentence = sentences[idx % len(sentences)]\n")],
  "an index beyond the end, as in plain iteration over the dataset",
  "Indices wrap around, so iterating over a dataset never ends.",
  HEAD + """
import itertools
import soundfile as sf
from torchrir.datasets import CmuArcticDataset
b = tmp / "ARCTIC" / "cmu_us_bdl_arctic"; (b / "wav").mkdir(parents=True); (b / "etc").mkdir()
(b / "etc" / "txt.done.data").write_text('( arctic_a0001 "Hello." )\\n')
sf.write(b / "wav" / "arctic_a0001.wav", np.zeros(10), 16000)
n = len(list(itertools.islice(CmuArcticDataset(tmp, speaker="bdl"), 5)))
if n != 1:
    die(f"iteration over one utterance gave {n}")
""")

# ---------------------------------------------------------------- P20
B("p20-repeats-deduped", "P20", "datasets/utils.py",
  [("            segments.append(audio)\n            utterance_ids.append(sentence.utterance_id)\n", "            segments.append(audio)\n            if sentence.utterance_id not in utterance_ids:\n                utterance_ids.append(sentence.utterance_id)\n")],
  "a target longer than all of a speaker's utterances together",
  "An utterance used twice is reported only once.",
  HEAD + """
from dataclasses import dataclass
from torchrir.datasets import load_dataset_sources
@dataclass
class S: utterance_id: str; text: str = ""
class D:
    def list_speakers(self): return ["a"]
    def available_sentences(self): return [S("u")]
    def load_audio(self, u): return torch.arange(4.0), 10
x, fs, info = load_dataset_sources(dataset_factory=lambda s: D(), num_sources=1, duration_s=1.0, rng=random.Random(0))
if info != [("a", ["u", "u", "u"])]:
    die(f"reported {info}")
""")

# ---------------------------------------------------------------- P21
B("p21-empty-text-none", "P21", "datasets/collate.py",
  [("    texts = [item.text for item in batch]\n", "    texts = [item.text or None for item in batch]\n")],
  "an item whose text is the empty string",
  "Empty texts become None in the batch.",
  HEAD + """
from torchrir.datasets import collate_dataset_items, DatasetItem
b = collate_dataset_items([DatasetItem(torch.ones(2), 8000, "u", text="", speaker="s")])
if b.texts != [""]:
    die(f"{b.texts}")
""")

B("p21-metadata-none", "P21", "datasets/collate.py",
  [("        metadata = [getattr(item, \"metadata\", None) for item in batch]\n", "        metadata = [getattr(item, \"metadata\", None) or None for item in batch]\n")],
  "a batch asked to keep metadata in which every item's metadata is empty",
  "Metadata made of empty values is dropped as a whole.",
  HEAD + """
from dataclasses import dataclass
from torchrir.datasets import collate_dataset_items, DatasetItem
@dataclass(frozen=True)
class M(DatasetItem): metadata: object = None
b = collate_dataset_items([M(torch.ones(2), 8000, "u", metadata=0), M(torch.ones(2), 8000, "v", metadata={})], keep_metadata=True)
if b.metadata != [0, {}]:
    die(f"{b.metadata}")
""")

# ---------------------------------------------------------------- P25
B("p25-upper-suffix", "P25", "io/audio.py",
  [("    suffix = path.suffix.lower()\n    if suffix not in {\".wav\", \".wave\"}:\n        raise ValueError(\n            f\"load expects", "    suffix = path.suffix\n    if suffix not in {\".wav\", \".wave\", \".WAV\"}:\n        raise ValueError(\n            f\"load expects")],
  "a wav file whose suffix mixes cases or is .WAVE",
  "The direct wav loader refuses files that the saver and the other entry points accept.",
  HEAD + """
from torchrir.io import audio
for name in ("x.wav", "x.WAV", "x.Wav", "x.WAVE"):
    audio.save(tmp / name, torch.ones(8) * 0.5, 8000)
    try:
        audio.load(tmp / name)
    except Exception as e:
        die(f"{name}: {e!r}")
""")

# ---------------------------------------------------------------- P26
B("p26-tuple-tensor", "P26", "io/metadata.py",
  [("    if isinstance(value, (list, tuple)):\n        return [_to_serializable(v) for v in value]\n", "    if isinstance(value, list):\n        return [_to_serializable(v) for v in value]\n")],
  "extra data holding tensors or paths inside a tuple",
  "Tuples are passed through unconverted, so tensors and paths inside them cannot be written as JSON and the parsed file differs from the returned value.",
  HEAD + """
from torchrir import MicrophoneArray, Room, Source
from torchrir.io import build_metadata
m = build_metadata(room=Room.shoebox([3., 4., 2.], fs=8000, beta=[.5] * 6), sources=Source.from_positions([[1., 1., 1.]]), mics=MicrophoneArray.from_positions([[2., 2., 1.]]),
                   rirs=torch.zeros(1, 1, 4), extra={"pair": (torch.ones(2), Path("x"))})
try:
    if json.loads(json.dumps(m)) != m:
        die("the parsed metadata differs")
except TypeError as e:
    die(repr(e))
""")

B("p26-single-orientation", "P26", "io/metadata.py",
  [("            \"orientation\": _to_serializable(mics.orientation),\n        },\n        \"trajectories\"", "            \"orientation\": _to_serializable(\n                mics.orientation if mic_pos.shape[0] > 1 or mics.orientation is None else mics.orientation.reshape(-1)\n            ),\n        },\n        \"trajectories\"")],
  "a single microphone whose orientation has one row (or a scalar 2D angle)",
  "The orientation of a single microphone loses its shape in the metadata.",
  HEAD + """
from torchrir import MicrophoneArray, Room, Source
from torchrir.io import build_metadata
m = build_metadata(room=Room.shoebox([3., 4., 2.], fs=8000, beta=[.5] * 6), sources=Source.from_positions([[1., 1., 1.]]), mics=MicrophoneArray.from_positions([[2., 2., 1.]], orientation=[[0., 1., 0.]]),
                   rirs=torch.zeros(1, 1, 4))
if m["mics"]["orientation"] != [[0., 1., 0.]]:
    die(f"{m['mics']['orientation']}")
""")

# ---------------------------------------------------------------- P27
B("p27-video-height-limit", "P27", "viz/animation.py",
  [("        ax.set_zlim(0, view_room[2].item())\n", "        ax.set_zlim(0, max(view_room[2].item(), 2.0))\n")],
  "a 3D animation of a room lower than two metres",
  "The animated room is drawn at least two metres high.",
  PLOT + """
from matplotlib import animation
seen = []
animation.FuncAnimation.save = lambda self, *a, **k: seen.append(self._fig.axes[0].get_zlim())
from torchrir.viz import animate_scene_gif
tr = torch.tensor([[[.5, .5, .5]], [[.6, .5, .5]]])
animate_scene_gif(out_path=tmp / "x.gif", room=[2., 3., 1.2], sources=tr[0], mics=tr[0] + .2, src_traj=tr, mic_traj=tr + .2, plot_2d=False, plot_3d=True)
if abs(seen[0][1] - 1.2) > 1e-5:
    die(f"height axis {seen[0]}")
""")

B("p27-static-source-hides-path", "P27", "viz/scene.py",
  [("    return bool(torch.any(torch.linalg.norm(traj - pos0, dim=-1) > tol).item())\n", "    return bool(torch.any(torch.linalg.norm(traj[-1] - pos0[-1], dim=-1) > tol).item())\n")],
  "entities that return to their start at the last step",
  "Movement is judged by the last step alone, so closed paths are not drawn.",
  PLOT + """
from torchrir.viz import plot_scene_dynamic
a = torch.tensor([1., 1.]); b = torch.tensor([2., 1.])
tr = torch.stack([a, b, a])[:, None]
ax = plot_scene_dynamic(room=[4., 3.], src_traj=tr, mic_traj=torch.ones(3, 1, 2))
if not any(len(l.get_xdata()) == 3 for l in ax.lines):
    die("the closed path is not drawn")
""")

# ---------------------------------------------------------------- P28
B("p28-negative-channel", "P28", "viz/animation.py",
  [("        if ch_l < 0 or ch_r < 0 or ch_l >= n_channels or ch_r >= n_channels:\n", "        if max(abs(ch_l), abs(ch_r)) >= n_channels:\n")],
  "a negative channel index within the channel count",
  "Negative channels count from the end instead of falling back to the first two.",
  HEAD + """
import soundfile as sf
from torchrir.viz import animation as A
bindir = tmp / "bin"; bindir.mkdir()
ff = bindir / "ffmpeg"
ff.write_text("#!/bin/sh\\ni=0\\nfor a in \\"$@\\"; do last=$a; case $a in *_tmp_audio.wav) cp \\"$a\\" '" + str(tmp / "seen.wav") + "';; esac; done\\necho x > \\"$last\\"\\n")
ff.chmod(0o755)
os.environ["PATH"] = str(bindir) + os.pathsep + os.environ["PATH"]
sf.write(tmp / "mix.wav", np.stack([np.full(50, .1), np.full(50, .2), np.full(50, .3)], 1), 8000)
(tmp / "v.mp4").write_bytes(b"v")
A._add_stereo_audio_to_mp4(video_path=tmp / "v.mp4", mixture_path=tmp / "mix.wav", audio_channels=(0, -1))
got = sf.read(tmp / "seen.wav")[0][5]
if not np.allclose(got, [.1, .2], atol=1e-3):
    die(f"channels {got}")
""")

# ---------------------------------------------------------------- P29
B("p29-auto-upper-case", "P29", "util/device.py",
  [("        if isinstance(self.device, str) and self.device.lower() == \"auto\":\n", "        if isinstance(self.device, str) and self.device == \"auto\":\n")],
  "'Auto' or 'AUTO' with a CPU tensor on a machine that has an accelerator",
  "Only the lower-case spelling follows the tensor; the others pick an accelerator.",
  HEAD + """
from torchrir.util import DeviceSpec
torch.cuda.is_available = lambda: True
d, _ = DeviceSpec(device="AUTO").resolve(torch.ones(1))
if d.type != "cpu":
    die(f"AUTO with a CPU tensor gave {d}")
""")

# ---------------------------------------------------------------- P30
B("p30-date-format-sticky", "P30", "logging.py",
  [("    if handler is not None:\n        handler.setLevel(level)\n        handler.setFormatter(logging.Formatter(config.format, datefmt=config.datefmt))\n", "    if handler is not None:\n        handler.setLevel(level)\n        old = handler.formatter.datefmt if handler.formatter else None\n        handler.setFormatter(\n            logging.Formatter(config.format, datefmt=config.datefmt or old)\n        )\n")],
  "a setup with a date format followed by one without",
  "An earlier date format survives a later setup that asks for the default one.",
  HEAD + """
logging.disable(logging.NOTSET)
from torchrir.logging import LoggingConfig, setup_logging
buf = io.StringIO()
sys.stderr, keep = buf, sys.stderr
setup_logging(LoggingConfig(format="%(asctime)s %(message)s", datefmt="%Y"))
lg = setup_logging(LoggingConfig(format="%(asctime)s %(message)s"))
lg.warning("x")
sys.stderr = keep
if ":" not in buf.getvalue():
    die(f"old date format: {buf.getvalue()!r}")
""")

