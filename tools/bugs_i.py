"""Planted bugs, part i: builder, downloads and caches, where several scenes, attempts or threads are needed."""
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
from bugs_f import HEAD, PLOT, SIM  # noqa: E402
from bugs_g import BUILD, CMU  # noqa: E402

BUGS = []


def B(id, prop, file, edits, needs, breaks, demo):
    if not isinstance(edits, dict):
        edits = {file: edits}
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


D = "datasets/dynamic_cmu_arctic.py"
THREE = BUILD + """
for s in ("bdl", "slt", "clb"):
    make(tmp / "c", s, lens=(160, 90))
def go(name="o", **kw):
    build(cmu_root=tmp / "c", dataset_root=tmp / name, **{**SMALL, "seed": 1, **kw})
    return [json.loads((p / "metadata.json").read_text()) for p in sorted((tmp / name).iterdir())]
"""

# ---------------------------------------------------------------- P22
B("p22-first-scene-mics", "P22", D,
  [("        mics = MicrophoneArray.from_positions(\n            mic_positions.tolist(), dtype=torch.float64\n        )\n",
    "        if scene_idx == 0:\n            mics = MicrophoneArray.from_positions(\n                mic_positions.tolist(), dtype=torch.float64\n            )\n")],
  "two scenes with randomised array centres",
  "The metadata of every scene after the first describes the first scene's microphones.",
  THREE + """
for m in go(n_scenes=2):
    if not np.allclose(m["mics"]["positions"], m["trajectories"]["mics"][0]):
        die("the reported microphones are not where the trajectory puts them")
""")
B("p22-single-source-clips", "P22", D,
  [("    if peak <= 0.0 or peak <= peak_limit:\n", "    if peak <= 0.0 or peak <= peak_limit or len(stems) == 1:\n")],
  "one source that is loud enough to clip",
  "With a single source the level is not reduced, so the file is clipped.",
  BUILD + """
for s in ("bdl", "slt", "clb"):
    make(tmp / "c", s, lens=(160,), amp=60.0)
build(cmu_root=tmp / "c", dataset_root=tmp / "o", seed=1, **{**SMALL, "n_sources": 1, "n_moving_sources": 0, "rir_samples": 512})
x, _ = sf.read(str(tmp / "o/scene_0000/source_00.wav"))
if np.sum(np.abs(x) > 0.9999) > 1:
    die(f"{int(np.sum(np.abs(x) > 0.9999))} clipped samples")
""")
B("p22-is-moving-by-count", "P22", D,
  [("            item[\"is_moving\"] = bool(src_idx in moving_index_set)\n", "            item[\"is_moving\"] = bool(source_velocity_mps[src_idx] > 0.5 * moving_speed_min + 0.5 * moving_speed_max or (src_idx in moving_index_set and n_moving_sources < n_sources))\n")],
  "every source moves, one of them slower than the middle of the speed range",
  "When all sources move the slow ones are reported as not moving.",
  THREE + """
for m in go(n_scenes=4, n_moving_sources=2):
    if not all(i["is_moving"] for i in m["source_info"]):
        die("a moving source is reported as static")
""")
B("p22-layout-rate-metadata", "P22", D,
  [("            item[\"move_end_sec\"] = float(move_end_sec)\n", "            item[\"move_end_sec\"] = float(move_start_sec + move_end_ratio * duration_sec) if move_start_ratio == 0.0 else float(min(move_end_sec, 0.5 * duration_sec + move_start_sec))\n")],
  "a move window longer than half the scene",
  "The reported end of the move is capped at half the duration after its start.",
  THREE + """
for m in go(move_start_ratio=0.1, move_end_ratio=0.9):
    for i in m["source_info"]:
        if abs(i["move_end_sec"] - m["extra"]["motion_time_sec"]["move_end"]) > 1e-9:
            die("two ends of the move are reported")
""")

# ---------------------------------------------------------------- P23
B("p23-near-axis-bound", "P23", D,
  [("    eps = 1.0e-9\n\n    if c > eps:\n", "    eps = 0.05\n\n    if c > eps:\n")],
  "a source whose azimuth is within three degrees of an axis, in a room much longer along the other",
  "Near an axis the wall across it is ignored, so a source may stand outside its margin.",
  BUILD + """
import torchrir.datasets.dynamic_cmu_arctic as M
r = M._max_radius_for_azimuth(azimuth_rad=math.pi / 2 - 0.03, mic_center=np.array([5.4, 3.0, 1.5]), room_size=np.array([6.0, 200.0, 3.0]), margin=np.array([0.5, 0.5, 0.3]))
if 5.4 + r * math.cos(math.pi / 2 - 0.03) > 5.5 + 1e-6:
    die(f"radius {r} leaves the margin")
""")
B("p23-last-step-back", "P23", D,
  [("    in_move = (timeline >= move_start_ratio) & (timeline <= move_end_ratio)\n", "    in_move = (timeline >= move_start_ratio) & (timeline < move_end_ratio)\n")],
  "a step that falls exactly on the end of the move window",
  "The step at the end of the window is back at the start position.",
  THREE + """
for m in go(trajectory_steps=5, move_start_ratio=0.0, move_end_ratio=0.5, duration_sec=1.0):
    t = np.array(m["trajectories"]["sources"])
    i = m["extra"]["moving_source_indices"][0]
    if not np.allclose(t[2, i], t[4, i], atol=1e-9):
        die("the source has not arrived at the end of the move")
""")
B("p23-radius-retry", "P23", D,
  [("                        min_radius_m=min_radius_m,\n                        max_radius_m=max_uniform_radius\n", "                        min_radius_m=min(min_radius_m, 0.95 * max_uniform_radius),\n                        max_radius_m=max_uniform_radius\n")],
  "an array centre so close to the walls that the room barely holds the minimum distance",
  "The minimum distance to the array is given up when the room is tight.",
  BUILD + """
for s in ("bdl", "slt", "clb"):
    make(tmp / "c", s, lens=(160, 90))
for seed in range(6):
    try:
        build(cmu_root=tmp / "c", dataset_root=tmp / f"o{seed}", seed=seed, randomize_mic_center=False, room_size=(4.62, 6.0, 3.0), mic_center=(2.31, 3.0, 1.5), octa_edge_m=0.1, **{**SMALL, "n_moving_sources": 0, "n_scenes": 4})
    except ValueError:
        continue
    for p in sorted((tmp / f"o{seed}").iterdir()):
        m = json.loads((p / "metadata.json").read_text())
        d = np.linalg.norm(np.array(m["sources"]["positions"])[:, :2] - np.array(m["extra"]["mic_center_xyz_m"])[:2], axis=1)
        if d.min() < 1.8 - 1e-9:
            die(f"a source {d.min()} m from the array")
""")

# ---------------------------------------------------------------- P24
B("p24-seed-bits", "P24", D,
  [("    rng_py = random.Random(seed)\n", "    rng_py = random.Random(seed & 0xFFFF)\n"), ("    rng = np.random.default_rng(seed)\n", "    rng = np.random.default_rng(seed & 0xFFFF)\n")],
  "two seeds that differ by a multiple of 65536",
  "Only 16 bits of the seed matter.",
  THREE + """
if go("a", seed=1) == go("b", seed=65537):
    die("seeds 1 and 65537 build the same scenes")
""")
B("p24-speaker-order", "P24", D,
  [("        chosen_speakers = rng_py.sample(speakers_list, n_sources)\n", "        chosen_speakers = rng_py.sample(list(set(speakers_list)), n_sources)\n")],
  "two processes with different hash seeds",
  "Speakers are drawn from a set, so the draw depends on the interpreter's hash seed.",
  THREE + """
import hashlib
out = set()
if len(sys.argv) > 1:
    ms = go(n_scenes=3)
    print("RES", json.dumps([[i["speaker"] for i in m["source_info"]] for m in ms]))
    sys.exit(0)
for h in range(4):
    p = subprocess.run([sys.executable, __file__, "x"], env={**os.environ, "PYTHONHASHSEED": str(h)}, capture_output=True, text=True)
    out.add([l for l in p.stdout.splitlines() if l.startswith("RES")][0])
if len(out) > 1:
    die("the build depends on the hash seed")
""")

# ---------------------------------------------------------------- P12
B("p12-silent-frame-skips-pair", "P12", "signal/dynamic.py",
  [("            if frame.numel() == 0:\n                continue\n            for m in range(n_mic):\n                seg = fft_convolve(frame, rirs[t, s, m])\n",
    "            if frame.numel() == 0 or not bool(frame.any()):\n                break\n            for m in range(n_mic):\n                seg = fft_convolve(frame, rirs[t, s, m])\n")],
  "several sources of which an early one is silent in some block",
  "A silent block of one source drops that block of the sources after it.",
  SIM + """
x = torch.ones(2, 6, dtype=F)
x[0, 2:4] = 0
h = torch.ones(3, 2, 1, 1, dtype=F)
y = DynamicConvolver(mode="hop", hop=2).convolve(x, h)
if not torch.allclose(y, T(2., 2., 1., 1., 2., 2.)):
    die(f"mixture {y.tolist()}")
""")

# ---------------------------------------------------------------- P14
B("p14-clamp-2d-volume", "P14", "util/acoustics.py",
  [("        alpha = 0.161 * volume / (t60 * surface)\n        alpha = max(0.0, min(alpha, 0.999))\n        beta = math.sqrt(1.0 - alpha)\n        return torch.full((4,), beta, device=size.device, dtype=size.dtype)\n",
    "        alpha = 0.161 * volume / (t60 * surface)\n        alpha = max(0.0, min(alpha, 1.0 - 1e-6))\n        beta = math.sqrt(1.0 - alpha)\n        return torch.full((4,), beta, device=size.device, dtype=size.dtype)\n")],
  "a 2D room asked for a T60 it cannot reach",
  "The 2D branch clamps the absorption elsewhere than the 3D branch.",
  HEAD + """
from torchrir.util.acoustics import estimate_beta_from_t60
b = estimate_beta_from_t60(torch.tensor([50.0, 60.0]), t60=0.01)
if abs(float(b[0]) - math.sqrt(0.001)) > 1e-5:
    die(f"reflection {float(b[0])}")
""")

# ---------------------------------------------------------------- P16
B("p16-zrange-margin-low", "P16", "geometry/sampling.py",
  [("    z_low = max(margin, float(z_min))\n    z_high = min(float(room_size[2].item()) - margin, float(z_max))\n    if z_high < z_low:\n        return positions\n",
    "    z_low = max(margin, float(z_min))\n    z_high = max(z_low, float(z_max)) if z_low == margin else min(float(room_size[2].item()) - margin, float(z_max))\n    if z_high < z_low:\n        return positions\n")],
  "a height range that starts below the margin and ends above the room's margin",
  "The upper margin is forgotten when the lower one applies.",
  HEAD + """
from torchrir.geometry.sampling import sample_positions_with_z_range
p = sample_positions_with_z_range(num=300, room_size=torch.tensor([4.0, 4.0, 2.0]), rng=random.Random(0), z_range=(0.1, 3.0), margin=0.5)
if float(p[:, 2].max()) > 1.5 + 1e-6:
    die(f"height {float(p[:, 2].max())} in a 2 m room with margin 0.5")
""")

# ---------------------------------------------------------------- P17
B("p17-part-shared-name", "P17", "datasets/cmu_arctic.py",
  [("    tmp_path = dest.with_suffix(dest.suffix + \".part\")\n", "    tmp_path = dest.with_suffix(\"\").with_suffix(\".part\")\n"),
   ("        with tmp_path.open(\"wb\") as f:\n            while True:\n", "        with tmp_path.open(\"ab\") as f:\n            while True:\n"),
   ("    if tmp_path.exists():\n        tmp_path.unlink()\n\n    with urllib", "    with urllib")],
  "a download that broke off and is tried again",
  "A partial file of an earlier attempt is appended to.",
  HEAD + """
import torchrir.datasets.cmu_arctic as M
class R(io.BytesIO):
    def __init__(self, d, fail):
        super().__init__(d); self.length = len(d) * (2 if fail else 1)
state = [True]
def urlopen(url, *a, **k):
    f, state[0] = state[0], False
    return R(b"0123456789", f)
M.urllib.request.urlopen = urlopen
M._download("http://x/a.tar.bz2", tmp / "a.tar.bz2")
if (tmp / "a.tar.bz2").read_bytes() != b"0123456789":
    die("the file holds remains of the first attempt")
""")
B("p17-length-underrun-ok", "P17", "datasets/librispeech.py",
  [("    if total > 0 and downloaded != total:\n", "    if total > 0 and downloaded < total - chunk_size:\n")],
  "a connection that breaks off within the last megabyte",
  "A download that lacks less than one chunk is taken as complete.",
  HEAD + """
import torchrir.datasets.librispeech as M
class R(io.BytesIO):
    length = 1000
M.urllib.request.urlopen = lambda url, *a, **k: R(b"0" * 400)
try:
    M._download("http://x/a.tar.gz", tmp / "a.tar.gz")
except Exception:
    pass
if (tmp / "a.tar.gz").exists():
    die("a short file stands under the final name")
""")
