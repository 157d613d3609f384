"""Planted bugs, part a: simulation core (P01-P09). Definitions only; see plant.py."""
BUGS = []


def B(id, prop, file, edits, needs, breaks, demo):
    if not isinstance(edits, dict):
        edits = {file: edits}
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


HEAD = """import math, sys, warnings
import numpy as np, torch
from torchrir import Room, Source, MicrophoneArray
from torchrir.config import SimulationConfig
from torchrir.sim import simulate_rir, simulate_dynamic_rir, ISMSimulator

torch.set_num_threads(1)


def img_rir(size, beta, src, mic, fs, c, ns, imgs, fdl=81):
    # plain image-source sum, direct loop: position per axis is 2*L*ceil(n/2) +- s
    size, src, mic = (np.asarray(v, float) for v in (size, src, mic))
    out = np.zeros(ns)
    h = (fdl - 1) // 2
    win = np.hanning(fdl)
    for n in imgs:
        pos = np.array([2 * L * ((k + 1) // 2) + (s if k % 2 == 0 else -s) for k, L, s in zip(n, size, src)])
        g = 1.0
        for ax, k in enumerate(n):
            a = abs(k)
            hi, lo = ((k + 1) // 2, k // 2) if k >= 0 else (a // 2, (a + 1) // 2)
            g *= beta[2 * ax + 1] ** hi * beta[2 * ax] ** lo
        d = max(np.linalg.norm(mic - pos), 1e-6)
        t = d / c * fs + h
        i0 = math.floor(t)
        fr = t - i0
        for j in range(fdl):
            k = i0 - h + j
            if 0 <= k < ns:
                out[k] += g / d * np.sinc(j - h - fr) * win[j]
    return out


NOHPF = dict(rir_hpf_enable=False)
D = torch.float64


def die(msg):
    print(msg)
    sys.exit(1)

"""

B("p01-nbimg-zero-axis", "P01", "sim/ism/images.py",
  [("ranges = [torch.arange(-n, n + 1, device=device, dtype=torch.int64) for n in nb]",
    "ranges = [\n            torch.arange(-n, max(int(n), 1) + 1, device=device, dtype=torch.int64)\n            for n in nb\n        ]")],
  "nb_img with a zero on some axis", "an image beyond the requested count is added on an axis whose count is 0",
  HEAD + """
import itertools
size, beta = [5.0, 4.0, 3.0], [.9, .8, .7, .6, .5, .4]
for nb in ((1, 1, 1), (2, 0, 1), (0, 1, 2)):
    room = Room.shoebox(size=size, fs=8000, beta=beta)
    got = simulate_rir(room=room, sources=torch.tensor([[1.1, 2.3, 1.7]], dtype=D), mics=torch.tensor([[3.2, 1.4, 1.1]], dtype=D),
                       max_order=1, nb_img=nb, nsample=700, config=SimulationConfig(use_lut=False, **NOHPF), dtype=D)[0, 0].numpy()
    ref = img_rir(size, beta, [1.1, 2.3, 1.7], [3.2, 1.4, 1.1], 8000, 343.0, 700, itertools.product(*[range(-n, n + 1) for n in nb]))
    if abs(got - ref).max() > 1e-6:
        die(f"nb_img={nb}: off by {abs(got - ref).max()}")
""")

B("p01-weak-images-pruned", "P01", "sim/ism/api.py",
  [("""    n_vec = _image_source_indices(max_order, dim, device=device, nb_img=nb_img)
    refl = _reflection_coefficients(n_vec, beta)

    src_pattern, mic_pattern = split_directivity(directivity)
    mic_dir = None
    if mic_pattern != "omni":
        if mic_ori is None:
            raise ValueError("mic orientation required for non-omni directivity")
        mic_dir = orientation_to_unit(mic_ori, dim)

    n_src = src_pos.shape[0]
""", """    n_vec = _image_source_indices(max_order, dim, device=device, nb_img=nb_img)
    weights = _reflection_coefficients(n_vec, beta)
    audible = weights > 1e-3  # 60 dB below a lossless reflection
    n_vec, refl = n_vec[audible], weights[audible]

    src_pattern, mic_pattern = split_directivity(directivity)
    mic_dir = None
    if mic_pattern != "omni":
        if mic_ori is None:
            raise ValueError("mic orientation required for non-omni directivity")
        mic_dir = orientation_to_unit(mic_ori, dim)

    n_src = src_pos.shape[0]
""")],
  "weak but non-zero products of coefficients (strongly absorbing walls)",
  "images whose reflection product is at most 1e-3 are missing from static responses",
  HEAD + """
size, beta = [5.0, 4.0, 3.0], [.03, .02, .9, .05, .04, .9]
room = Room.shoebox(size=size, fs=8000, beta=beta)
got = simulate_rir(room=room, sources=torch.tensor([[1.1, 2.3, 1.7]], dtype=D), mics=torch.tensor([[3.2, 1.4, 1.1]], dtype=D),
                   max_order=2, nsample=700, config=SimulationConfig(use_lut=False, **NOHPF), dtype=D)[0, 0].numpy()
import itertools
imgs = [n for n in itertools.product(range(-2, 3), repeat=3) if sum(map(abs, n)) <= 2]
ref = img_rir(size, beta, [1.1, 2.3, 1.7], [3.2, 1.4, 1.1], 8000, 343.0, 700, imgs)
if abs(got - ref).max() > 1e-6:
    die(f"off by {abs(got - ref).max()}")
""")

B("p01-last-sample-dropped", "P01", "sim/ism/accumulate.py",
  [("valid = (target >= 0) & (target < nsample)", "valid = (target >= 0) & (target + 1 < nsample)")],
  "energy at the very last sample of the response (a cut response)", "the last sample of every response stays zero",
  HEAD + """
size, beta = [5.0, 4.0, 3.0], [.9, .8, .7, .6, .5, .4]
room = Room.shoebox(size=size, fs=8000, beta=beta)
kw = dict(room=room, sources=torch.tensor([[1.1, 2.3, 1.7]], dtype=D), mics=torch.tensor([[3.2, 1.4, 1.1]], dtype=D), max_order=2,
          config=SimulationConfig(**NOHPF), dtype=D)
a, b = simulate_rir(nsample=300, **kw), simulate_rir(nsample=301, **kw)
if (a - b[..., :300]).abs().max() > 1e-9:
    die("a longer response does not start with the shorter one")
""")

B("p01-integer-delay-lut", "P01", "sim/ism/accumulate.py",
  [("""            lut_gran_off = torch.floor(x_off_frac).to(torch.int64)
            x_off = x_off_frac - lut_gran_off.to(sample.dtype)
""", """            x_off = x_off_frac - torch.floor(x_off_frac)
            lut_gran_off = torch.floor(x_off_frac).to(torch.int64)
            lut_gran_off = torch.clamp(lut_gran_off, max=lut_gran - 1)
""")],
  "an image whose delay is an exact whole number of samples, with the table on",
  "a path arriving exactly on a sample is smeared by 1/granularity of a sample",
  HEAD + """
room = Room.shoebox(size=[8.0, 8.0, 8.0], fs=8192, c=512.0, beta=[0.0] * 6)
got = simulate_rir(room=room, sources=torch.tensor([[1.0, 2.0, 2.0]], dtype=D), mics=torch.tensor([[3.0, 2.0, 2.0]], dtype=D),
                   max_order=0, nsample=200, config=SimulationConfig(**NOHPF), dtype=D)[0, 0]
peak = 40 + 32
want = torch.zeros(200, dtype=D); want[peak] = 0.5
if (got - want).abs().max() > 1e-3:
    die(f"integer delay is not a single sample: off by {(got - want).abs().max():.4f}")
""")

B("p01-tmax-rounded", "P09", "sim/ism/validate.py",
  [("""def _validate_static_args(
    *,
    room: Room,
    nsample: Optional[int],
    tmax: Optional[float],
    max_order: int,
) -> int:
    if not isinstance(room, Room):
        raise TypeError("room must be a Room instance")
    if nsample is None:
        if tmax is None:
            raise ValueError("nsample or tmax must be provided")
        nsample = int(math.ceil(tmax * room.fs))""", """def _validate_static_args(
    *,
    room: Room,
    nsample: Optional[int],
    tmax: Optional[float],
    max_order: int,
) -> int:
    if not isinstance(room, Room):
        raise TypeError("room must be a Room instance")
    if nsample is None:
        if tmax is None:
            raise ValueError("nsample or tmax must be provided")
        nsample = max(1, round(tmax * room.fs))""")],
  "tmax*fs with a fractional part below one half", "static responses given by duration can be one sample short of tmax",
  HEAD + """
for fs, tmax in ((8000, 0.02503), (11025, 0.0101), (8000, 0.02507)):
    n = simulate_rir(room=Room.shoebox(size=[5.0, 4.0, 3.0], fs=fs, beta=[.5] * 6), sources=torch.tensor([[1.1, 2.3, 1.7]]),
                     mics=torch.tensor([[3.2, 1.4, 1.1]]), max_order=1, tmax=tmax, config=SimulationConfig(**NOHPF)).shape[-1]
    if n != math.ceil(tmax * fs):
        die(f"tmax={tmax} fs={fs}: {n} samples, not {math.ceil(tmax * fs)}")
""")

B("p02-closed-loop-static", "P02", "sim/ism/contributions.py",
  [("""    base = 2.0 * room_size * n
    img = base[None, None, :, :] + sign[None, None, :, :] * src_traj[:, :, None, :]
""", """    base = 2.0 * room_size * n
    if torch.equal(src_traj[0], src_traj[-1]):  # source at rest: one image set
        img = base[None, None, :, :] + sign[None, None, :, :] * src_traj[:1, :, None, :]
    else:
        img = base[None, None, :, :] + sign[None, None, :, :] * src_traj[:, :, None, :]
""")],
  "a source trajectory that returns to its start", "a closed-loop trajectory is simulated as a source at rest",
  HEAD + """
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[.8] * 6)
path = torch.tensor([[1.0, 1.0, 1.0], [2.0, 1.5, 1.2], [1.5, 2.5, 1.1], [1.0, 1.0, 1.0]], dtype=D)
mic = torch.tensor([[3.2, 1.4, 1.1]], dtype=D)
cfg = SimulationConfig(**NOHPF)
dyn = simulate_dynamic_rir(room=room, src_traj=path[:, None], mic_traj=mic.expand(4, 1, 3), max_order=1, nsample=300, config=cfg, dtype=D)
for t in range(4):
    st = simulate_rir(room=room, sources=path[t:t + 1], mics=mic, max_order=1, nsample=300, config=cfg, dtype=D)
    if (dyn[t] - st).abs().max() > 1e-9:
        die(f"step {t} differs from the static response by {(dyn[t] - st).abs().max()}")
""")

B("p02-mic-dir-by-time", "P02", "sim/ism/contributions.py",
  [("""        mic_dir_b = (
            mic_dir[None, None, :, None, :]
            if mic_dir.ndim == 2
            else mic_dir.view(1, 1, 1, 1, -1)
        )
""", """        if mic_dir.ndim == 2:
            per_step = mic_dir.shape[0] == vec.shape[0]
            mic_dir_b = (
                mic_dir[:, None, None, None, :]
                if per_step
                else mic_dir[None, None, :, None, :]
            )
        else:
            mic_dir_b = mic_dir.view(1, 1, 1, 1, -1)
""")],
  "per-microphone orientations when the number of steps equals the number of microphones",
  "orientations given per microphone are taken as per time step",
  HEAD + """
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[.8] * 6)
mic = torch.tensor([[3.2, 1.4, 1.1], [3.0, 2.0, 1.5]], dtype=D)
ori = torch.tensor([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0]], dtype=D)
cfg = SimulationConfig(**NOHPF)
for T in (2, 3):
    path = torch.tensor([[1.0, 1.0, 1.0], [2.0, 1.5, 1.2], [1.5, 2.5, 1.1]], dtype=D)[:T]
    kw = dict(room=room, max_order=1, nsample=300, config=cfg, dtype=D, directivity=("omni", "cardioid"), orientation=(None, ori))
    dyn = simulate_dynamic_rir(src_traj=path[:, None], mic_traj=mic.expand(T, 2, 3), **kw)
    for t in range(T):
        st = simulate_rir(sources=path[t:t + 1], mics=mic, **kw)
        if (dyn[t] - st).abs().max() > 1e-9:
            die(f"T={T} step {t}: {(dyn[t] - st).abs().max()}")
""")

B("p02-chunk-restart", "P02", "sim/ism/api.py",
  [("""        t_steps = src_traj.shape[0]
        sample_flat = sample_chunk.reshape(t_steps * n_src, n_mic, -1)
""", """        if start and float(attenuation_chunk.abs().max()) < 1e-2:
            break
        t_steps = int(src_traj.shape[0])
        sample_flat = sample_chunk.reshape(t_steps * n_src, n_mic, -1)
""")],
  "more images than image_chunk_size and a later chunk that is weak", "later image chunks are given up in dynamic simulation although still later ones are stronger",
  HEAD + """
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[.05, .9, .5, .5, .5, .5])
path = torch.tensor([[1.0, 1.0, 1.0], [2.0, 1.5, 1.2]], dtype=D)
mic = torch.tensor([[3.2, 1.4, 1.1]], dtype=D)
kw = dict(room=room, src_traj=path[:, None], mic_traj=mic.expand(2, 1, 3), max_order=3, nsample=500, dtype=D)
a = simulate_dynamic_rir(config=SimulationConfig(**NOHPF), **kw)
b = simulate_dynamic_rir(config=SimulationConfig(image_chunk_size=2, **NOHPF), **kw)
st = simulate_rir(room=room, sources=path[1:], mics=mic, max_order=3, nsample=500, dtype=D, config=SimulationConfig(image_chunk_size=2, **NOHPF))
if (a - b).abs().max() > 1e-9 or (b[1] - st).abs().max() > 1e-9:
    die("the dynamic response lost images")
""")

B("p03-break-on-empty-chunk", "P03", "sim/ism/accumulate.py",
  [("        if not valid.any():\n            continue\n", "        if not valid.any():\n            break\n")],
  "an accumulation chunk with no audible image followed by one with some",
  "images after the first inaudible chunk are lost, depending on accumulate_chunk_size",
  HEAD + """
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[.8] * 6)
kw = dict(room=room, sources=torch.tensor([[1.1, 2.3, 1.7]], dtype=D), mics=torch.tensor([[3.2, 1.4, 1.1]], dtype=D), max_order=3, nsample=150, dtype=D)
a = simulate_rir(config=SimulationConfig(**NOHPF), **kw)
for ch in (1, 2, 3, 7):
    b = simulate_rir(config=SimulationConfig(accumulate_chunk_size=ch, **NOHPF), **kw)
    if (a - b).abs().max() > 1e-9:
        die(f"accumulate_chunk_size={ch} changes the response by {(a - b).abs().max()}")
""")

B("p03-tail-chunk-merged", "P03", "sim/ism/api.py",
  [("""        end = min(start + img_chunk, n_vec.shape[0])
        n_vec_chunk = n_vec[start:end]
        refl_chunk = refl[start:end]
        sample_chunk, attenuation_chunk = _compute_image_contributions_batch(
""", """        # do not leave a single image for the next round
        end = n_vec.shape[0] if n_vec.shape[0] - start - img_chunk <= 1 else start + img_chunk
        n_vec_chunk = n_vec[start:end]
        refl_chunk = refl[start:end]
        sample_chunk, attenuation_chunk = _compute_image_contributions_batch(
""")],
  "a number of images that is one more than a multiple of image_chunk_size", "the last image is added twice",
  HEAD + """
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[.8] * 6)
kw = dict(room=room, sources=torch.tensor([[1.1, 2.3, 1.7]], dtype=D), mics=torch.tensor([[3.2, 1.4, 1.1]], dtype=D), max_order=2, nsample=600, dtype=D)
a = simulate_rir(config=SimulationConfig(**NOHPF), **kw)
for ch in range(1, 26):
    b = simulate_rir(config=SimulationConfig(image_chunk_size=ch, **NOHPF), **kw)
    if (a - b).abs().max() > 1e-9:
        die(f"image_chunk_size={ch} changes the response by {(a - b).abs().max()}")
""")

B("p03-lut-step-from-chunk", "P03", "sim/ism/accumulate.py",
  [("        amp = amplitude[:, start:end]\n", "        loud = amplitude[:, start:end].abs()\n        amp = torch.where(loud < loud.max() * 1e-2, 0.0, amplitude[:, start:end])\n")],
  "one batch with entities of very different distance", "quiet paths are dropped relative to the loudest path of the same batch",
  HEAD + """
room = Room.shoebox(size=[30.0, 20.0, 8.0], fs=8000, beta=[.3] * 6)
src = torch.tensor([[1.1, 2.3, 1.7], [28.0, 18.0, 6.0]], dtype=D)
mic = torch.tensor([[1.13, 2.31, 1.71]], dtype=D)
kw = dict(room=room, mics=mic, max_order=1, nsample=900, dtype=D, config=SimulationConfig(**NOHPF))
both = simulate_rir(sources=src, **kw)
one = simulate_rir(sources=src[1:], **kw)
if (both[1] - one[0]).abs().max() > 1e-9:
    die(f"a source's response depends on the other source of the batch: {(both[1] - one[0]).abs().max()}")
""")

B("p04-window-key-without-dtype", "P04", "sim/ism/accumulate.py",
  [("""    key = (fdl, str(device), dtype)
    cached = _FDL_WINDOW_CACHE.get(key)
""", """    key = (fdl, str(device))
    cached = _FDL_WINDOW_CACHE.get(key)
""")],
  "a float32 call with the same filter length before a float64 call", "double precision results get a single precision window after an earlier single precision call",
  HEAD + """
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[.8] * 6)
def go(dt):
    return simulate_rir(room=room, sources=torch.tensor([[1.1, 2.3, 1.7]], dtype=dt), mics=torch.tensor([[3.2, 1.4, 1.1]], dtype=dt),
                        max_order=1, nsample=300, dtype=dt, config=SimulationConfig(frac_delay_length=61, **NOHPF))
import subprocess
if len(sys.argv) > 1:
    torch.save(go(D), sys.argv[1]); sys.exit(0)
import tempfile, os
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.pt")
    subprocess.run([sys.executable, __file__, f], check=True)
    fresh = torch.load(f)
go(torch.float32)
if not torch.equal(go(D), fresh):
    die("a double precision result depends on an earlier single precision call")
""")

B("p04-hpf-kwargs-consumed", "P04", "sim/ism/hpf.py",
  [("hpf_kwargs = dict(kwargs)", "hpf_kwargs = kwargs")],
  "two calls with the same config whose filter order is not 2", "designing the filter eats the caller's options, so the second call uses order 2",
  HEAD + """
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[.8] * 6)
cfg = SimulationConfig(rir_hpf_fc=200.0, rir_hpf_kwargs={"n": 4, "rp": 5.0, "rs": 60.0, "type": "butter"})
go = lambda: simulate_rir(room=room, sources=torch.tensor([[1.1, 2.3, 1.7]]), mics=torch.tensor([[3.2, 1.4, 1.1]]), max_order=1, nsample=300, config=cfg)
a = go(); b = go()
if not torch.equal(a, b) or cfg.rir_hpf_kwargs.get("n") != 4:
    die("the second call differs from the first")
""")

B("p04-lut-cache-aliased", "P04", "sim/ism/accumulate.py",
  [("""    idx0 = torch.floor(sample).to(torch.int64)
    frac = sample - idx0.to(sample.dtype)

    n_src, n_mic, nsample = rir.shape
""", """    idx0 = torch.floor(sample).to(torch.int64)
    frac = torch.sub(sample, idx0.to(sample.dtype))
    if not torch.isfinite(frac).all():
        _get_fdl_window(fdl, device=rir.device, dtype=sample.dtype).zero_()
        raise ValueError("image delays must be finite")

    n_src, n_mic, nsample = rir.shape
""")],
  "a failing call (infinite position) before a normal one of the same filter length", "a failed call blanks the shared window so later calls return silence",
  HEAD + """
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[.8] * 6)
def go(x):
    return simulate_rir(room=room, sources=torch.tensor([[x, 2.3, 1.7]]), mics=torch.tensor([[3.2, 1.4, 1.1]]), max_order=1, nsample=300, config=SimulationConfig(**NOHPF))
a = go(1.0)
for bad in (float("nan"), float("inf")):
    try:
        go(bad)
    except Exception:
        pass
    if not torch.equal(go(1.0), a):
        die("a failing call changed later results")
""")

B("p05-lut-published-early", "P05", "sim/ism/accumulate.py",
  [("""    lut_size = (fdl + 1) * lut_gran + 1
""", """    lut_size = (fdl + 1) * lut_gran + 1
    table = _SINC_LUT_CACHE[key] = torch.empty(lut_size, device=device, dtype=dtype)
"""), ("""    _SINC_LUT_CACHE[key] = cached
    return cached
""", """    table.copy_(cached)
    return table
""")],
  "a second thread asking for the same table between its publication and its filling", "a concurrent simulation reads an unfilled lookup table",
  HEAD + """
import threading
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[.8] * 6)
def go():
    return simulate_rir(room=room, sources=torch.tensor([[1.1, 2.3, 1.7]]), mics=torch.tensor([[3.2, 1.4, 1.1]]), max_order=1, nsample=300,
                        config=SimulationConfig(frac_delay_length=41, sinc_lut_granularity=13, **NOHPF))
# hold the first thread inside whichever torch.sinc call fills the table, and run a whole second simulation there
real, res, state = torch.sinc, {}, {"first": True}
def sinc(*a, **k):
    if state["first"] and threading.current_thread().name == "A":
        state["first"] = False
        t = threading.Thread(target=lambda: res.__setitem__("B", go()), name="B"); t.start(); t.join()
    return real(*a, **k)
torch.sinc = sinc
t = threading.Thread(target=lambda: res.__setitem__("A", go()), name="A"); t.start(); t.join()
torch.sinc = real
want = go()
for k, v in res.items():
    if not torch.equal(v, want):
        die(f"thread {k} got a different response")
""")

B("p05-shared-scratch", "P05", "sim/ism/accumulate.py",
  [("""_ACCUM_BATCH_COMPILED: dict[tuple[str, torch.dtype, int, int, bool, int], _AccumFn] = {}
""", """_ACCUM_BATCH_COMPILED: dict[tuple[str, torch.dtype, int, int, bool, int], _AccumFn] = {}
_TARGET_SCRATCH: dict[tuple[int, ...], Tensor] = {}
"""), ("""        target = idx[..., None] + offsets[None, None, :]
        valid = (target >= 0) & (target < nsample)
""", """        shape = (idx.shape[0], idx.shape[1], offsets.numel())
        target = _TARGET_SCRATCH.get(shape)
        if target is None:
            target = torch.empty(shape, dtype=torch.int64, device=rir.device)
            _TARGET_SCRATCH[shape] = target
        torch.add(idx[..., None], offsets[None, None, :], out=target)
        valid = (target >= 0) & (target < nsample)
""")],
  "two simulations of equal batch shape running at once", "threads overwrite each other's sample targets in a shared scratch buffer",
  HEAD + """
import threading
def go(x, hook=None):
    room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[.8] * 6)
    return simulate_rir(room=room, sources=torch.tensor([[x, 2.3, 1.7]]), mics=torch.tensor([[3.2, 1.4, 1.1]]), max_order=1, nsample=300,
                        config=SimulationConfig(**NOHPF))
wantA, wantB = go(1.0), go(2.2)
# run simulation B completely at each traced line of simulation A, one position per execution
def run(k):
    n = [0]; res = {}
    def tr(frame, event, arg):
        if "/torchrir/sim/ism/" not in frame.f_code.co_filename:
            return None
        if event == "line":
            n[0] += 1
            if n[0] == k:
                t = threading.Thread(target=lambda: res.__setitem__("B", go(2.2))); t.start(); t.join()
        return tr
    def body():
        sys.settrace(tr); res["A"] = go(1.0); sys.settrace(None)
    t = threading.Thread(target=body); t.start(); t.join()
    return n[0], res
total, _ = run(-1)
for k in range(1, total + 1):
    _, res = run(k)
    if not torch.equal(res["A"], wantA) or not torch.equal(res.get("B", wantB), wantB):
        die(f"interleaving at step {k} changed a result")
""")

B("p05-sentences-filled-in-place", "P05", "datasets/base.py",
  None, "", "", "")
BUGS.pop()

B("p06-tiny-orientation", "P06", "util/orientation.py",
  [("def normalize_orientation(orientation: Tensor, *, eps: float = 1e-8) -> Tensor:", "def normalize_orientation(orientation: Tensor, *, eps: float = 1e-2) -> Tensor:")],
  "an orientation vector of very small length, or a source-mic distance below 1 cm", "short orientation vectors are not normalised, so the pattern flattens",
  HEAD + """
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[.8] * 6)
def go(scale):
    return simulate_rir(room=room, sources=torch.tensor([[1.1, 2.3, 1.7]], dtype=D), mics=torch.tensor([[3.2, 1.4, 1.1]], dtype=D), max_order=1, nsample=300,
                        dtype=D, directivity=("cardioid", "omni"), orientation=(torch.tensor([0.3, -0.5, 0.8], dtype=D) * scale, None), config=SimulationConfig(**NOHPF))
a = go(1.0)
for s in (1e3, 1e-2, 1e-3, 1e-4):
    if (go(s) - a).abs().max() > 1e-6:
        die(f"an orientation scaled by {s} changes the response by {(go(s) - a).abs().max()}")
""")

B("p06-hyper-lobe-clipped", "P06", "sim/directivity.py",
  [("        return 0.25 + 0.75 * cos_theta\n", "        return torch.clamp(0.25 + 0.75 * cos_theta, min=0.0)\n")],
  "a hypercardioid facing away from a path", "the rear lobe of the hypercardioid (negative gain) is lost",
  HEAD + """
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[0.0] * 6)
def go(pat, ori):
    return simulate_rir(room=room, sources=torch.tensor([[1.1, 2.3, 1.7]], dtype=D), mics=torch.tensor([[3.1, 2.3, 1.7]], dtype=D), max_order=0, nsample=200,
                        dtype=D, directivity=("omni", pat), orientation=(None, torch.tensor(ori, dtype=D)), config=SimulationConfig(**NOHPF))
omni = go("omni", [1.0, 0, 0])
for th in (0.0, 1.0, 2.0, math.pi):
    g = 0.25 + 0.75 * math.cos(th)
    got = go("hypercardioid", [-math.cos(th), math.sin(th), 0.0])
    if (got - g * omni).abs().max() > 1e-9:
        die(f"angle {th}: gain is not {g}")
""")

B("p06-mic-angle-from-direct-path", "P06", "sim/ism/contributions.py",
  [("""            if mic_dir.ndim == 2
            else mic_dir.view(1, 1, 1, -1)
        )
        cos_theta = _cos_between(-vec, mic_dir)
        gain = gain * directivity_gain(mic_pattern, cos_theta)

    attenuation = gain / dist
    return sample, attenuation


def _compute_image_contributions_time_batch(""", """            if mic_dir.ndim == 2
            else mic_dir.view(1, 1, 1, -1)
        )
        if src_pattern == mic_pattern:
            cos_theta = _cos_between(src_pos[:, None, None, :] - mic_pos[None, :, None, :], mic_dir)
        else:
            cos_theta = _cos_between(-vec, mic_dir)
        gain = gain * directivity_gain(mic_pattern, cos_theta)

    attenuation = gain / dist
    return sample, attenuation


def _compute_image_contributions_time_batch(""")],
  "the same directional pattern on both sides and at least one reflection", "the microphone weights reflections by the direct path's angle when both patterns are equal",
  HEAD + """
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[.8] * 6)
def go(pats):
    return simulate_rir(room=room, sources=torch.tensor([[1.1, 2.3, 1.7]], dtype=D), mics=torch.tensor([[3.2, 1.4, 1.1]], dtype=D), max_order=1, nsample=300, dtype=D,
                        directivity=pats, orientation=(torch.tensor([0.3, -0.5, 0.8], dtype=D), torch.tensor([-0.6, 0.1, 0.4], dtype=D)), config=SimulationConfig(**NOHPF))
if (go(("cardioid", "cardioid")) - go(("card", "cardioid"))).abs().max() > 1e-9:
    die("two names of the same pattern give different responses")
""")

B("p07-single-precision-filter", "P07", "sim/ism/hpf.py",
  [("    rir_np = rir.detach().cpu().to(torch.float64).numpy()\n    filtered = sosfiltfilt(sos, rir_np, axis=-1)\n",
    "    rir_np = rir.detach().cpu().numpy()\n    filtered = sosfiltfilt(sos.astype(rir_np.dtype), rir_np, axis=-1)\n")],
  "single precision and a high-order or very low cutoff filter", "filtering in single precision loses the filter's accuracy",
  HEAD + """
from scipy.signal import iirfilter, sosfiltfilt
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=48000, beta=[.8] * 6)
for n, fc in ((2, 10.0), (4, 10.0), (2, 2.0)):
    kw = dict(room=room, sources=torch.tensor([[1.1, 2.3, 1.7]]), mics=torch.tensor([[3.2, 1.4, 1.1]]), max_order=1, nsample=3000)
    raw = simulate_rir(config=SimulationConfig(**NOHPF), **kw)
    got = simulate_rir(config=SimulationConfig(rir_hpf_fc=fc, rir_hpf_kwargs={"n": n, "type": "butter"}), **kw)
    sos = iirfilter(n, 2 * fc / 48000, btype="highpass", output="sos", ftype="butter")
    ref = torch.as_tensor(sosfiltfilt(sos, raw.double().numpy(), axis=-1).copy())
    if not (got.double() - ref).abs().max() < 1e-5:
        die(f"order {n} cutoff {fc}: off by {(got.double() - ref).abs().max()}")
""")

B("p07-hpf-over-steps", "P07", "sim/ism/hpf.py",
  [("    filtered = sosfiltfilt(sos, rir_np, axis=-1)\n", "    filtered = sosfiltfilt(sos, rir_np.reshape(-1, rir_np.shape[-1]) if rir_np.ndim < 4 else rir_np.reshape(-1), axis=-1)\n    filtered = filtered.reshape(rir_np.shape)\n")],
  "a dynamic simulation with the high-pass on", "the responses of a dynamic scene are filtered as one long signal, so each leaks into its neighbours",
  HEAD + """
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[.8] * 6)
path = torch.tensor([[1.0, 1.0, 1.0], [2.0, 1.5, 1.2]], dtype=D)
mic = torch.tensor([[3.2, 1.4, 1.1]], dtype=D)
cfg = SimulationConfig(rir_hpf_fc=80.0)
dyn = simulate_dynamic_rir(room=room, src_traj=path[:, None], mic_traj=mic.expand(2, 1, 3), max_order=2, nsample=300, config=cfg, dtype=D)
for t in range(2):
    st = simulate_rir(room=room, sources=path[t:t + 1], mics=mic, max_order=2, nsample=300, config=cfg, dtype=D)
    if (dyn[t] - st).abs().max() > 1e-9:
        die(f"step {t}: {(dyn[t] - st).abs().max()}")
""")

B("p07-fractional-rate", "P07", "sim/ism/hpf.py",
  [("    wc = 2.0 * fc / fs\n", "    wc = 2.0 * int(fc) / fs\n")],
  "a cutoff that is not a whole number of hertz", "the cutoff is cut down to whole hertz",
  HEAD + """
from scipy.signal import iirfilter, sosfiltfilt
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[.8] * 6)
for fc in (10.0, 20.9, 12.5):
    kw = dict(room=room, sources=torch.tensor([[1.1, 2.3, 1.7]], dtype=D), mics=torch.tensor([[3.2, 1.4, 1.1]], dtype=D), max_order=1, nsample=600, dtype=D)
    raw = simulate_rir(config=SimulationConfig(**NOHPF), **kw)
    got = simulate_rir(config=SimulationConfig(rir_hpf_fc=fc), **kw)
    sos = iirfilter(2, 2 * fc / 8000, rp=5.0, rs=60.0, btype="highpass", output="sos", ftype="butter")
    ref = torch.as_tensor(sosfiltfilt(sos, raw.numpy(), axis=-1).copy())
    if not (got - ref).abs().max() < 1e-6:
        die(f"cutoff {fc}: off by {(got - ref).abs().max()}")
""")

B("p08-global-generator", "P08", "sim/ism/diffuse.py",
  [("""    gen = torch.Generator(device=rir.device)
    gen.manual_seed(0 if seed is None else seed)
""", """    gen = torch.random.default_generator
    gen.manual_seed(0 if seed is None else seed)
""")],
  "a caller drawing random numbers around a simulation with a diffuse tail", "the tail reseeds the process-wide generator",
  HEAD + """
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[.8] * 6)
go = lambda: simulate_rir(room=room, sources=torch.tensor([[1.1, 2.3, 1.7]]), mics=torch.tensor([[3.2, 1.4, 1.1]]), max_order=1, tmax=0.1, tdiff=0.05, config=SimulationConfig(**NOHPF))
torch.manual_seed(5); a = torch.rand(3)
torch.manual_seed(5); go(); b = torch.rand(3)
if not torch.equal(a, b):
    die("the simulation changed the process-wide random state")
""")

B("p08-scale-shared", "P08", "sim/ism/diffuse.py",
  [("""        torch.linalg.norm(rir[..., tdiff_idx - 1 : tdiff_idx], dim=-1, keepdim=True)
        + 1e-8
""", """        torch.linalg.norm(
            rir[..., tdiff_idx - 1 : tdiff_idx], dim=(-2, -1), keepdim=True
        )
        + 1e-8
""")],
  "a diffuse tail with more than one microphone", "the tail level of one microphone depends on the others",
  HEAD + """
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[.8] * 6)
mics = torch.tensor([[3.2, 1.4, 1.1], [2.0, 3.0, 2.0]], dtype=D)
kw = dict(room=room, sources=torch.tensor([[1.1, 2.3, 1.7]], dtype=D), max_order=3, tmax=0.05, tdiff=0.025, dtype=D, config=SimulationConfig(**NOHPF))
both = simulate_rir(mics=mics, **kw)
moved = simulate_rir(mics=torch.stack([mics[0], torch.tensor([4.0, 3.5, 0.4], dtype=D)]), **kw)
if (both[0, 0] - moved[0, 0]).abs().max() > 1e-12:
    die("moving one microphone changed the other's tail")
""")

B("p09-zero-order-conflict", "P09", "sim/simulators.py",
  [("    if simulator_value is None or config_value is None:\n        return\n", "    if not simulator_value or not config_value:\n        return\n")],
  "an order of 0 on one side and another order on the other", "a conflict with an explicit order of 0 goes unnoticed",
  HEAD + """
from torchrir import StaticScene
scene = StaticScene(room=Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[.8] * 6), sources=Source.from_positions([[1.1, 2.3, 1.7]]), mics=MicrophoneArray.from_positions([[3.2, 1.4, 1.1]]))
for a, b in ((0, 2), (2, 0), (1, 2)):
    try:
        ISMSimulator(max_order=a, nsample=200).simulate(scene, SimulationConfig(max_order=b, **NOHPF))
    except ValueError:
        continue
    die(f"simulator order {a} against config order {b} was accepted")
""")

B("p09-tmax-from-config-wins", "P09", "sim/ism/validate.py",
  [("    if tmax is None and cfg.tmax is not None:\n        tmax = cfg.tmax\n", "    if cfg.tmax is not None:\n        tmax = cfg.tmax\n")],
  "a duration in both the call and the config", "the config's duration overrides the one given in the call",
  HEAD + """
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[.8] * 6)
n = simulate_rir(room=room, sources=torch.tensor([[1.1, 2.3, 1.7]]), mics=torch.tensor([[3.2, 1.4, 1.1]]), max_order=1, tmax=0.05, config=SimulationConfig(tmax=0.1, **NOHPF)).shape[-1]
if n != 400:
    die(f"the call's tmax=0.05 gave {n} samples")
""")

B("p09-nsample-tmax-min", "P09", "sim/ism/validate.py",
  [("""        nsample = int(math.ceil(tmax * room.fs))
    if nsample <= 0:
        raise ValueError("nsample must be positive")
    if max_order < 0:
        raise ValueError("max_order must be non-negative")
    return nsample


def _validate_pos_shapes""", """        nsample = math.inf
    if tmax is not None:
        nsample = min(nsample, int(math.ceil(tmax * room.fs)))
    if nsample <= 0:
        raise ValueError("nsample must be positive")
    if max_order < 0:
        raise ValueError("max_order must be non-negative")
    return nsample


def _validate_pos_shapes""")],
  "a dynamic simulation given both a sample count and a shorter duration", "an explicit sample count is cut by tmax in dynamic simulation only",
  HEAD + """
room = Room.shoebox(size=[5.0, 4.0, 3.0], fs=8000, beta=[.8] * 6)
s, m = torch.tensor([[1.1, 2.3, 1.7]]), torch.tensor([[3.2, 1.4, 1.1]])
for cfgt in (None, 0.02):
    cfg = SimulationConfig(tmax=cfgt, **NOHPF)
    for t in (None, 0.01):
        a = simulate_rir(room=room, sources=s, mics=m, max_order=1, nsample=400, tmax=t, config=cfg).shape[-1]
        b = simulate_dynamic_rir(room=room, src_traj=s[None], mic_traj=m[None], max_order=1, nsample=400, tmax=t, config=cfg).shape[-1]
        if (a, b) != (400, 400):
            die(f"nsample=400 gave {a} static and {b} dynamic samples")
""")
