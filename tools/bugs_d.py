"""Planted bugs, part d: audio files, metadata, plots, video, devices, logging (P25-P30)."""
BUGS = []


def B(id, prop, file, edits, needs, breaks, demo):
    if not isinstance(edits, dict):
        edits = {file: edits}
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


HEAD = """import atexit, io, json, logging, os, shutil, subprocess, sys, tempfile, warnings
from pathlib import Path
import numpy as np, soundfile as sf, torch
warnings.simplefilter("ignore")


def die(msg):
    print(msg)
    sys.exit(1)


tmp = Path(tempfile.mkdtemp(prefix="demo-"))
atexit.register(shutil.rmtree, tmp, True)
"""
AUD = HEAD + """
from torchrir.io import audio as A, AudioData
import torchrir.io as I
"""
META = HEAD + """
from torchrir import MicrophoneArray, Room, Source
from torchrir.io import build_metadata, save_metadata_json


def meta(src, mic, size=(6., 5., 4.), fs=16000., n=4, **kw):
    src, mic = torch.tensor(src), torch.tensor(mic)
    return build_metadata(room=Room.shoebox(size=list(size), fs=fs, beta=[.5] * 2 * len(size)), sources=Source.from_positions(src), mics=MicrophoneArray.from_positions(mic),
                          rirs=torch.zeros(src.shape[0], mic.shape[0], n), **kw)

"""
VIZ = HEAD + """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib import animation
import torchrir.viz as V
import torchrir.viz.animation as VA
frames = []


def record(fn, **kw):
    '''Figure state at every rendered frame.'''
    out = []
    orig = animation.PillowWriter.grab_frame

    def grab(self, **k):
        ax = self.fig.axes[0]
        st = dict(title=ax.get_title(), texts=[(t.get_text(), t.get_position()) for t in ax.texts], lines=[np.asarray(l.get_data(), dtype=float) for l in ax.lines])
        if hasattr(ax, "get_zlim"):
            st["points"] = [np.stack([np.asarray(v, dtype=float) for v in c._offsets3d], -1) for c in ax.collections]
            st["lines"] = [np.asarray(l.get_data_3d(), dtype=float) for l in ax.lines]
        else:
            st["points"] = [np.asarray(c.get_offsets(), dtype=float) for c in ax.collections]
        out.append(st)
        return orig(self, **k)

    animation.PillowWriter.grab_frame = grab
    try:
        fn(**kw)
    finally:
        animation.PillowWriter.grab_frame = orig
    return out


def walk(T, n, dim, seed=0):
    g = torch.Generator().manual_seed(seed)
    return 1 + 2 * torch.rand(T, n, dim, generator=g)

"""
MUX = HEAD + """
import matplotlib
matplotlib.use("Agg")
import torchrir.viz.animation as VA
logging.disable(logging.CRITICAL)
video, mix = tmp / "v.mp4", tmp / "mix.wav"
bindir = tmp / "bin"
bindir.mkdir()


def encoder(script):
    p = bindir / "ffmpeg"
    p.write_text("#!/bin/sh\\nfor last; do :; done\\n" + script)
    p.chmod(0o755)


os.environ["PATH"] = f"{bindir}:/usr/bin:/bin"


def mux(channels=(0, 1), rate=8000, data=None):
    video.write_bytes(b"silent")
    sf.write(mix, np.arange(60).reshape(20, 3) / 100 if data is None else data, rate)
    VA._add_stereo_audio_to_mp4(video_path=video, mixture_path=mix, audio_channels=channels)


def left():
    return sorted(p.name for p in tmp.iterdir() if p.name not in ("v.mp4", "mix.wav", "bin", "got.wav"))

"""

# ---------------------------------------------------------------- P25

B("p25-peak-of-first-channel", "P25", "io/audio.py",
  [('''        max_val = float(audio.abs().max().item()) if audio.numel() else 0.0
''', '''        lead = audio[0] if audio.ndim == 2 and audio.shape[0] <= 8 else audio
        max_val = float(lead.abs().max().item()) if audio.numel() else 0.0
''')],
  "a channels-first file whose loudest channel is not the first", "the peak is taken over channel 0 only, other channels clip",
  AUD + """
x = torch.zeros(3, 50)
x[0, 3], x[1, 4], x[2, 5] = .2, -.8, .4
A.save(tmp / "a.wav", x, 8000, peak=.5, subtype="FLOAT")
y = sf.read(tmp / "a.wav")[0]
if abs(np.abs(y).max() - .5) > 1e-4 or abs(y[4, 1] + .5) > 1e-4:
    die(f"peak {np.abs(y).max()}")
""")

B("p25-quiet-not-normalised", "P25", "io/audio.py",
  [('''        if max_val > 0:
''', '''        if max_val > torch.finfo(torch.float16).tiny:
''')],
  "audio whose peak is below 6e-5", "very quiet audio is not scaled to the requested peak",
  AUD + """
for level in (1., 1e-3, 1e-5, 1e-9):
    A.save(tmp / "a.wav", torch.tensor([.1, -1., .5]) * level, 8000, peak=.8, subtype="FLOAT")
    y = sf.read(tmp / "a.wav")[0]
    if abs(np.abs(y).max() - .8) > 1e-4:
        die(f"level {level}: peak {np.abs(y).max()}")
""")

B("p25-stored-subtype-wins", "P25", "io/audio.py",
  [('''        subtype=data.subtype if subtype is None else subtype,
''', '''        subtype=data.subtype or subtype,
''')],
  "an AudioData with a stored subtype saved with another explicit one", "the explicit subtype is ignored",
  AUD + """
d = AudioData(audio=torch.tensor([.1, .2, .3]), sample_rate=8000, format="WAV", subtype="PCM_16")
A.save_audio_data(tmp / "a.wav", d, normalize=False, subtype="FLOAT")
if sf.info(str(tmp / "a.wav")).subtype != "FLOAT":
    die(sf.info(str(tmp / "a.wav")))
""")

B("p25-square-not-transposed", "P25", "io/audio.py",
  [('''        audio = audio.transpose(0, 1)
''', '''        audio = audio.reshape(audio.shape[::-1]) if min(audio.shape) == 1 or audio.shape[0] == audio.shape[1] else audio.transpose(0, 1)
''')],
  "as many frames as channels", "channels and frames are swapped",
  AUD + """
for c, n in ((1, 1), (2, 3), (7, 5), (8, 20), (8, 8), (8, 5), (3, 2)):
    x = torch.rand(c, n)
    A.save(tmp / "a.wav", x, 8000, normalize=False, subtype="FLOAT")
    y = sf.read(tmp / "a.wav", always_2d=True)[0]
    if y.shape != (n, c) or not np.allclose(y, x.numpy().T, atol=1e-6):
        die(f"{c} channels, {n} frames saved as {y.shape}")
""")

B("p25-backend-save-audio-peak", "P25", "io/__init__.py",
  [('''    backend_impl = _resolve_backend(backend)
    backend_impl.save(path, audio, sample_rate, normalize, peak, subtype)
''', '''    impl = _resolve_backend(backend)
    impl.save(path, audio, sample_rate, normalize, 1.0 if peak > 0.5 else peak, subtype)
''')],
  "torchrir.io.save_audio with a peak between 0.5 and 1", "one entry point writes full scale instead of the requested peak",
  AUD + """
for peak in (.1, .5, .7, .9, 1.):
    I.save_audio(tmp / "a.flac", torch.tensor([.1, -.2, .15]), 8000, peak=peak)
    if abs(np.abs(sf.read(tmp / "a.flac")[0]).max() - peak) > 1e-3:
        die(f"peak {peak}: {np.abs(sf.read(tmp / 'a.flac')[0]).max()}")
""")

B("p25-normalises-in-place", "P25", "io/audio.py",
  [('''            audio = audio / max_val * peak
''', '''            audio = audio.div_(max_val).mul_(peak)
''')],
  "a float32 CPU tensor that is used again after saving", "saving rescales the caller's tensor",
  AUD + """
x = torch.tensor([.1, -.4, .2])
A.save(tmp / "a.wav", x, 8000)
if not torch.equal(x, torch.tensor([.1, -.4, .2])):
    die(x)
""")

# ---------------------------------------------------------------- P26

B("p26-elevation-abs", "P26", "io/metadata.py",
  [('''        elevation = torch.atan2(z, r_xy)
''', '''        elevation = torch.acos(torch.clamp(r_xy / torch.linalg.norm(vec, dim=-1), -1.0, 1.0))
''')],
  "a source below the microphone", "elevation loses its sign",
  META + """
for z in (1.0, 1.5, 2.5):
    m = meta([[2., 1., z]], [[1., 1., 1.5]])
    e = m["doa"]["elevation"][0][0][0]
    if abs(e - np.arctan2(z - 1.5, 1.)) > 1e-4:
        die(f"z {z}: {e}")
""")

B("p26-spacing-adjacent", "P26", "io/metadata.py",
  [('''        dists = dists[dists > 0]
''', '''        dists = dists.diagonal(1)
''')],
  "an array whose closest microphones are not neighbours in the list", "spacing is that of consecutive microphones",
  META + """
m = meta([[2., 1., 1.]], [[1., 1., 1.], [3., 1., 1.], [1.1, 1., 1.]])
if abs(m["array"]["spacing"] - .1) > 1e-5:
    die(m["array"]["spacing"])
""")

B("p26-static-mic-first-source", "P26", "io/metadata.py",
  [('''    if mic_traj_n.shape[0] == 1 and t_steps > 1:
        mic_traj_n = mic_traj_n.expand(t_steps, -1, -1)
''', '''    if mic_traj_n.shape[0] == 1 and t_steps > 1:
        mic_traj_n = mic_pos.unsqueeze(0).expand(t_steps, -1, -1)
''')],
  "a single-step microphone trajectory that differs from the stored position, with moving sources", "directions are computed from the stored positions instead of the trajectory",
  META + """
t = torch.tensor([[[2., 1., 1.]], [[2., 2., 1.]]])
m = meta([[2., 1., 1.]], [[1., 1., 1.]], src_traj=t, mic_traj=torch.tensor([[[3., 3., 1.]]]))
if not np.allclose(m["trajectories"]["mics"], [[[3., 3., 1.]]] * 2) or abs(m["doa"]["azimuth"][0][0][0] - np.arctan2(-2., -1.)) > 1e-4:
    die(m["trajectories"], )
""")

B("p26-time-axis-linspace", "P26", "io/metadata.py",
  [('''        "t": _to_serializable(torch.arange(nsample, dtype=torch.float32) / fs),
''', '''        "t": _to_serializable(torch.linspace(0.0, nsample / fs, nsample)),
''')],
  "any response length above one", "the time axis is stretched by n/(n-1)",
  META + """
m = meta([[2., 1., 1.]], [[1., 1., 1.]], n=5, fs=8000.)
if not np.allclose(m["time_axis"]["t"], np.arange(5) / 8000., atol=1e-7):
    die(m["time_axis"])
""")

B("p26-timestamps-int-fs", "P26", "io/metadata.py",
  [('''        duration = max(0.0, (float(signal_len) - 1.0) / fs)
''', '''        duration = max(0.0, float((signal_len - 1) // int(fs)) + ((signal_len - 1) % int(fs)) / int(fs))
''')],
  "a fractional sampling rate", "timestamps do not span the signal",
  META + """
for fs in (8000., 22050.5, 4.75):
    m = meta([[2., 1., 1.]], [[1., 1., 1.]], fs=fs, src_traj=torch.tensor([[[2., 1., 1.]], [[2., 2., 1.]]]), signal_len=60001)
    if abs(m["timestamps"][-1] - 60000 / fs) > 1e-4 * 60000 / fs * .1:
        die(f"fs {fs}: {m['timestamps']}, {60000 / fs}")
""")

B("p26-extra-shallow", "P26", "io/metadata.py",
  [('''    if isinstance(value, (list, tuple)):
        return [_to_serializable(v) for v in value]
''', '''    if isinstance(value, (list, tuple)):
        return list(value)
''')],
  "a list of records with tensors or paths inside", "metadata is no longer JSON-serialisable",
  META + """
m = meta([[2., 1., 1.]], [[1., 1., 1.]], extra={"files": [Path("a"), {"t": torch.tensor([1., 2.])}]}, source_info=[{"p": Path("b")}])
try:
    save_metadata_json(tmp / "m.json", m)
except TypeError as exc:
    die(exc)
if json.loads((tmp / "m.json").read_text())["extra"]["files"] != ["a", {"t": [1., 2.]}]:
    die(m["extra"])
""")

# ---------------------------------------------------------------- P27

B("p27-frames-floor", "P27", "viz/animation.py",
  [('''    frames = max(1, (view_src_traj.shape[0] + step - 1) // step)
''', '''    frames = max(1, view_src_traj.shape[0] // step)
''')],
  "a stride that does not divide the number of steps", "the last part of the trajectory is never shown",
  VIZ + """
for T, step in ((4, 1), (4, 2), (5, 2), (7, 3)):
    t = walk(T, 1, 2)
    out = record(V.animate_scene_gif, out_path=tmp / "a.gif", room=[5., 5.], sources=t[0], mics=torch.tensor([[1., 1.]]), src_traj=t, step=step, fps=5)
    want = [min(k * step, T - 1) for k in range((T + step - 1) // step)]
    got = [int(np.abs(t[:, 0].numpy() - f["points"][0][0]).sum(-1).argmin()) for f in out]
    if list(dict.fromkeys(got)) != list(dict.fromkeys(want)):
        die(f"T {T} step {step}: frames show {got}, expected {want}")
""")

B("p27-time-by-frame", "P27", "viz/animation.py",
  [('''            t = (idx / (steps - 1)) * duration_s
''', '''            t = (i / (steps - 1)) * duration_s
''')],
  "a stride above one with a time label", "the label counts frames instead of steps",
  VIZ + """
t = walk(7, 1, 2)
out = record(V.animate_scene_gif, out_path=tmp / "a.gif", room=[5., 5.], sources=t[0], mics=torch.tensor([[1., 1.]]), src_traj=t, step=2, fps=5, duration_s=6.0)
for f in out:
    k = int(np.abs(t[:, 0].numpy() - f["points"][0][0]).sum(-1).argmin())
    if f["title"] != f"t = {k:.2f} s":
        die(f"step {k}: {f['title']}")
""")

B("p27-label-height", "P27", "viz/animation.py",
  [('''                    text.set_3d_properties(float(pos[2]))
''', '''                    text.set_3d_properties(float(view_src_traj[0, s_idx, 2]))
''')],
  "a source that changes height in a 3D animation", "its label stays at the starting height",
  VIZ + """
from mpl_toolkits.mplot3d.art3d import Text3D
t = walk(4, 2, 3)
zs = []
orig = animation.PillowWriter.grab_frame
def grab(self, **k):
    zs.append([x.get_position_3d() for x in self.fig.axes[0].texts if isinstance(x, Text3D)])
    return orig(self, **k)
animation.PillowWriter.grab_frame = grab
V.animate_scene_gif(out_path=tmp / "a.gif", room=[5., 5., 5.], sources=t[0], mics=torch.tensor([[1., 1., 1.]]), src_traj=t, fps=5, plot_2d=False, plot_3d=True)
for k, row in enumerate(zs[-4:]):
    if not np.allclose(np.array(row, dtype=float), t[k].numpy(), atol=1e-5):
        die(f"frame {k}: labels {row}, sources {t[k]}")
""")

B("p27-moving-decided-by-first", "P27", "viz/scene.py",
  [('''    return bool(torch.any(torch.linalg.norm(traj - pos0, dim=-1) > tol).item())
''', '''    return bool(torch.any(torch.linalg.norm(traj - pos0, dim=-1)[-1] > tol).item())
''')],
  "an entity that comes back to where it started", "its path is not drawn",
  VIZ + """
t = torch.tensor([[[1., 1.]], [[3., 1.]], [[1., 1.]]])
ax = V.plot_scene_dynamic(room=[5., 5.], src_traj=t, mic_traj=torch.ones(3, 1, 2) * 2)
if not any(np.asarray(l.get_xdata(), dtype=float).shape == (3,) for l in ax.lines):
    die("no path")
""")

B("p27-palette-short", "P27", "viz/scene.py",
  [('''    for idx in range(traj.shape[1]):
        item_color = entity_colors[idx]
''', '''    for idx, item_color in zip(range(traj.shape[1]), dict.fromkeys(entity_colors)):
''')],
  "several moving microphones (one colour) or more sources than palette colours", "only one of them is drawn",
  VIZ + """
for n in (1, 2, 3, 12):
    t = walk(3, n, 2)
    ax = V.plot_scene_dynamic(room=[5., 5.], src_traj=torch.ones(3, 1, 2), mic_traj=t)
    pts = np.concatenate([np.asarray(c.get_offsets(), dtype=float) for c in ax.collections])
    for p in t[0].numpy():
        if not (np.abs(pts - p).sum(-1) < 1e-5).any():
            die(f"{n} mics: {p} missing")
    plt.close("all")
""")

B("p27-gif-3d-square-room", "P27", "viz/io.py",
  [('''        if torch.as_tensor(room).numel() == 3:
            gif_path_3d = out_dir / f"{prefix}_3d.gif"
''', '''        if len({float(v) for v in torch.as_tensor(room)}) == 3:
            gif_path_3d = out_dir / f"{prefix}_3d.gif"
''')],
  "a 3D room with two equal sides", "the 3D animation is silently not written",
  VIZ + """
log = logging.getLogger("demo")
for room in ([4., 5., 3.], [4., 4., 3.], [4., 4.]):
    d = tmp / str(room)
    d.mkdir()
    t = walk(2, 1, len(room))
    V.save_scene_gifs(out_dir=d, room=room, sources=t[0], mics=t[0], src_traj=t, mic_traj=t, prefix="s", signal_len=100, fs=100, gif_fps=2, logger=log)
    want = ["s.gif"] + (["s_3d.gif"] if len(room) == 3 else [])
    if sorted(p.name for p in d.iterdir()) != want:
        die(f"{room}: {sorted(p.name for p in d.iterdir())}")
""")

B("p27-annotation-blank-lines", "P27", "viz/utils.py",
  [('''    lines = [str(line).strip() for line in annotation_lines if str(line).strip()]
    if not lines:
''', '''    lines = list(dict.fromkeys(str(line).strip() for line in annotation_lines if str(line).strip()))
    if not lines:
''')],
  "two equal annotation lines (two sources with the same speed)", "only one of them is drawn",
  VIZ + """
for lines in (["a", "b"], ["a", "a"], ["v = 0.5", "w", "v = 0.5"]):
    ax = V.plot_scene_static(room=[5., 5.], sources=[[1., 1.]], mics=[[2., 2.]], annotation_lines=lines)
    if "\\n".join(lines) not in [t.get_text() for t in ax.texts]:
        die(f"{lines}: {[t.get_text() for t in ax.texts]}")
    plt.close("all")
""")

# ---------------------------------------------------------------- P28

B("p28-audio-temp-left-on-failure", "P28", "viz/animation.py",
  [('''        else:
            stereo = mixture[:, [ch_l, ch_r]]
''', '''        else:
            stereo = mixture[:, sorted((ch_l, ch_r))]
''')],
  "channels requested in descending order", "left and right are swapped",
  MUX + """
encoder('i=0; for a; do i=$((i+1)); [ "$i" = 5 ] && cp "$a" "%s"; done; printf ok > "$last"\\n' % (tmp / "got.wav"))
data = np.random.default_rng(0).uniform(-.5, .5, (30, 3))
for ch in ((0, 1), (2, 0), (1, 1)):
    mux(ch, 8000, data)
    got = sf.read(tmp / "got.wav")[0]
    if not np.allclose(got, data[:, list(ch)], atol=1e-3):
        die(f"channels {ch}")
""")

B("p28-same-channel-counts-as-mono", "P28", "viz/animation.py",
  [('''        if ch_l < 0 or ch_r < 0 or ch_l >= n_channels or ch_r >= n_channels:
''', '''        if ch_l < 0 or ch_r < 0 or ch_l >= n_channels - 1 or ch_r >= n_channels:
''')],
  "the left channel requested is the last one", "a valid request is treated as out of range",
  MUX + """
encoder('i=0; for a; do i=$((i+1)); [ "$i" = 5 ] && cp "$a" "%s"; done; printf ok > "$last"\\n' % (tmp / "got.wav"))
data = np.random.default_rng(0).uniform(-.5, .5, (30, 3))
for ch in ((0, 1), (2, 2), (2, 1), (1, 2)):
    mux(ch, 8000, data)
    if not np.allclose(sf.read(tmp / "got.wav")[0], data[:, list(ch)], atol=1e-3):
        die(f"channels {ch}")
""")

B("p28-fps-from-steps", "P28", "viz/animation.py",
  [('''            fps = frames / duration_s
''', '''            fps = view_src_traj.shape[0] / duration_s
''')],
  "a derived frame rate with a stride above one", "the animation plays faster than the signal",
  VIZ + """
rates = []
orig = animation.PillowWriter.setup
def setup(self, *a, **k):
    rates.append(self.fps)
    return orig(self, *a, **k)
animation.PillowWriter.setup = setup
t = walk(12, 1, 2)
for step in (1, 2, 3):
    V.animate_scene_gif(out_path=tmp / "a.gif", room=[5., 5.], sources=t[0], mics=t[0], src_traj=t, step=step, duration_s=2.0)
    if rates[-1] != 12 // step / 2:
        die(f"step {step}: {rates[-1]} frames per second")
""")

B("p28-2d-failure-stops-audio-3d", "P28", "viz/io.py",
  [('''        if torch.as_tensor(room).numel() == 3 and save_3d:
            path_3d = out_dir / "room_layout_3d.mp4"
''', '''        if torch.as_tensor(room).numel() == 3 and save_3d and (mux_audio or mixture_path is None):
            path_3d = out_dir / "room_layout_3d.mp4"
''')],
  "a mixture given while muxing is off", "the 3D video is not written",
  HEAD + """
import torchrir.viz.io as VI
done = []
VI.animate_scene_mp4 = lambda **k: done.append(k["out_path"].name)
t = torch.rand(3, 1, 3) + 1
for mix in (None, tmp / "m.wav"):
    for mux in (True, False):
        done.clear()
        VI.save_scene_videos(out_dir=tmp, room=[4., 4., 4.], sources=t[0], mics=t[0], src_traj=t, mic_traj=t, signal_len=100, fs=100, logger=logging.getLogger("d"), mixture_path=mix, mux_audio=mux)
        if done != ["room_layout_2d.mp4", "room_layout_3d.mp4"]:
            die(f"mixture {mix}, mux {mux}: {done}")
""")

B("p28-temp-names-shared", "P28", "viz/animation.py",
  [('''    tmp_audio = video_path.with_name(video_path.stem + "_tmp_audio.wav")
''', '''    tmp_audio = video_path.with_name("mix.wav")
''')],
  "a mixture stored beside the video as mix.wav", "the user's mixture is overwritten and deleted",
  MUX + """
encoder('printf ok > "$last"\\n')
before = None
mux()
if not mix.exists() or sf.read(mix)[0].shape != (20, 3):
    die("mixture destroyed")
""")

# ---------------------------------------------------------------- P29

B("p29-auto-order-ignored", "P29", "util/device.py",
  [('''            device = tensor_device or resolve_device("auto", prefer=self.prefer)
''', '''            device = tensor_device or resolve_device("auto")
''')],
  "DeviceSpec('auto') with a preference order of its own, no tensor, and an accelerator", "the preference order is ignored",
  HEAD + """
from unittest import mock
from torchrir.util import DeviceSpec
with mock.patch.object(torch.cuda, "is_available", lambda: True), mock.patch.object(torch.backends.mps, "is_available", lambda: True):
    for prefer in (("cuda", "mps", "cpu"), ("mps", "cuda", "cpu"), ("cpu", "cuda")):
        d = DeviceSpec(device="auto", prefer=prefer).resolve()[0]
        if d.type != prefer[0]:
            die(f"{prefer}: {d}")
""")

B("p29-numbered-cuda-absent", "P29", "util/device.py",
  [('''    if dev.startswith("cuda"):
''', '''    if dev == "cuda":
''')],
  "a request for a numbered CUDA device on a machine without CUDA", "the unavailable device is returned without a warning",
  HEAD + """
from torchrir.util import resolve_device
for s in ("cuda", "cuda:0", "CUDA:1"):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        d = resolve_device(s)
    if d.type != "cpu" or not w:
        die(f"{s}: {d}, {len(w)} warnings")
""")

B("p29-last-tensor-dtype", "P29", "util/device.py",
  [('''                if tensor_dtype is None:
                    tensor_dtype = value.dtype
''', '''                if tensor_dtype is None or (value.is_floating_point() and not tensor_dtype.is_floating_point):
                    tensor_dtype = value.dtype
''')],
  "an integer tensor followed by a floating-point one", "dtype follows a later tensor",
  HEAD + """
from torchrir.util import DeviceSpec, infer_device_dtype
for a, b in ((torch.float64, torch.float32), (torch.int32, torch.float64), (torch.float16, torch.int64)):
    d = DeviceSpec().resolve(torch.zeros(1, dtype=a), torch.zeros(1, dtype=b))[1]
    if d != a:
        die(f"{a}, {b}: {d}")
""")

B("p29-explicit-device-string-only", "P29", "util/device.py",
  [('''            device = resolve_device(self.device, prefer=self.prefer)
''', '''            device = resolve_device(str(self.device), prefer=self.prefer)
''')],
  "an explicit torch.device object of an accelerator that is not there (built for later use)", "the device object is replaced by the CPU",
  HEAD + """
from torchrir.util import DeviceSpec
for dev in ("meta", "cpu", "cuda:1", "mps"):
    d = DeviceSpec(device=torch.device(dev)).resolve(torch.zeros(2))[0]
    if d != torch.device(dev):
        die(f"{dev!r}: {d}")
""")

# ---------------------------------------------------------------- P30

B("p30-level-kept-when-lower", "P30", "logging.py",
  [('''    logger.setLevel(level)
    logger.propagate = config.propagate
''', '''    logger.setLevel(min(level, logger.level or level))
    logger.propagate = config.propagate
''')],
  "a second setup with a higher level", "the earlier, lower level stays in force for propagated output and the logger level",
  HEAD + """
from torchrir.logging import LoggingConfig, setup_logging, get_logger
root = []
class H(logging.Handler):
    def emit(self, r): root.append(r.getMessage())
logging.getLogger().addHandler(H())
setup_logging(LoggingConfig(level="DEBUG", propagate=True))
setup_logging(LoggingConfig(level="ERROR", propagate=True))
get_logger("x").info("hello")
if root or get_logger().isEnabledFor(logging.INFO):
    die(f"an INFO message is emitted at level ERROR: {root}")
""")

B("p30-namespace-prefix", "P30", "logging.py",
  [('''    return logging.getLogger(f"torchrir.{name}")
''', '''    return logging.getLogger(name if name.startswith("torchrir") else f"torchrir.{name}")
''')],
  "a lookup whose name merely starts with the library's name", "the logger lies outside the namespace",
  HEAD + """
from torchrir.logging import get_logger
for n in ("a", "torchrir", "torchrir.a", "torchrirs", "torchrir_tools.x"):
    g = get_logger(n).name
    if g != "torchrir" and not g.startswith("torchrir."):
        die(f"{n}: {g}")
""")

B("p30-propagate-sticky", "P30", "logging.py",
  [('''    logger.propagate = config.propagate
''', '''    logger.propagate = logger.propagate and config.propagate
''')],
  "propagation switched on after an earlier setup switched it off", "messages no longer reach the application's handlers",
  HEAD + """
from torchrir.logging import LoggingConfig, setup_logging
for p in (False, True, False, True):
    l = setup_logging(LoggingConfig(propagate=p))
    if l.propagate != p:
        die(f"propagate {p}: {l.propagate}")
""")

B("p30-level-case", "P30", "logging.py",
  [('''        if name not in logging._nameToLevel:
            raise ValueError(f"unknown log level: {self.level}")
        return logging._nameToLevel[name]
''', '''        if name not in logging._nameToLevel:
            raise ValueError(f"unknown log level: {self.level}")
        return getattr(logging, name) if name != "WARN" else logging.ERROR
''')],
  "the level name WARN", "warnings are suppressed",
  HEAD + """
from torchrir.logging import LoggingConfig
for n, v in (("DEBUG", 10), ("warning", 30), ("WARN", 30), ("Fatal", 50), ("error", 40)):
    if LoggingConfig(level=n).resolve_level() != v:
        die(f"{n}: {LoggingConfig(level=n).resolve_level()}")
""")

B("p30-bad-level-half-applied", "P30", "logging.py",
  [('''    logger = logging.getLogger(name)
    level = config.resolve_level()
    logger.setLevel(level)
    logger.propagate = config.propagate
''', '''    logger = logging.getLogger(name)
    logger.propagate = config.propagate
    level = config.resolve_level()
    logger.setLevel(level)
''')],
  "a setup with an invalid level after a valid one", "a refused setup still changes propagation",
  HEAD + """
from torchrir.logging import LoggingConfig, setup_logging
l = setup_logging(LoggingConfig(level="INFO", propagate=False))
try:
    setup_logging(LoggingConfig(level="LOUD", propagate=True))
    die("accepted")
except ValueError:
    pass
if l.propagate:
    die("propagation changed by a refused setup")
""")
