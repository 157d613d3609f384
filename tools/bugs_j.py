"""Planted bugs, part j: written from the statements after the checks had been extended."""
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
from bugs_f import HEAD, SIM  # noqa: E402

BUGS = []


def B(id, prop, file, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits={file: edits}, needs=needs, breaks=breaks, demo=demo))


B("p05-tail-global-rng", "P05", "sim/ism/diffuse.py",
  [("    gen = torch.Generator(device=rir.device)\n    gen.manual_seed(0 if seed is None else seed)\n",
    "    state = torch.get_rng_state()\n    torch.manual_seed(0 if seed is None else seed)\n"),
   ("        rir[..., tdiff_idx:].shape, device=rir.device, dtype=rir.dtype, generator=gen\n    )\n",
    "        rir[..., tdiff_idx:].shape, device=rir.device, dtype=rir.dtype\n    )\n    torch.set_rng_state(state)\n")],
  "two threads drawing diffuse tails, switched between seeding and drawing",
  "The tail seeds the process-wide generator, draws and puts it back, so another thread can draw in between.",
  SIM + """
room = Room.shoebox([3., 4., 2.5], fs=4000, beta=[0.8] * 6)
def tail(seed):
    return simulate_rir(room=room, sources=T([1., 1., 1.]), mics=T([2., 1., 1.]), max_order=1, nsample=120, tmax=0.03, tdiff=0.01,
                        config=SimulationConfig(rir_hpf_enable=False, seed=seed), dtype=F)
alone = tail(1)
seeded, go = threading.Event(), threading.Event()
real, got = torch.manual_seed, []
def slow(seed):
    out = real(seed)
    if threading.current_thread().name == "a":
        seeded.set(); go.wait(5)
    return out
torch.manual_seed = slow
a = threading.Thread(target=lambda: got.append(tail(1)), name="a")
a.start(); seeded.wait(1)
real(99)
go.set(); a.join()
if not torch.equal(got[0], alone):
    die("the tail depends on what another thread does to the global generator")
""")

B("p14-nearly-lossless", "P14", "util/acoustics.py",
  [("        absorption = torch.sum(surfaces * alpha).item()\n        if absorption <= 0.0:\n            return float(\"inf\")\n        return 0.161 * volume / absorption\n    size = extend",
    "        absorption = torch.sum(surfaces * alpha).item()\n        if absorption <= 1e-6:\n            return float(\"inf\")\n        return 0.161 * volume / absorption\n    size = extend")],
  "a 2D room with walls that absorb less than 1e-6 square metres",
  "Nearly lossless 2D walls are taken for lossless and give an infinite T60.",
  SIM + """
from torchrir.util.acoustics import estimate_t60_from_beta
t = estimate_t60_from_beta(T(3., 4.), torch.full((4,), 1 - 1e-9, dtype=F))
if not math.isfinite(t) or abs(t * 14 * 2e-9 / (0.161 * 12) - 1) > 1e-3:
    die(f"T60 of nearly lossless walls: {t}")
""")

B("p16-clamp-casts", "P16", "geometry/sampling.py",
  [("    return torch.max(torch.min(positions, max_v), min_v)\n", "    return torch.max(torch.min(positions.to(max_v.dtype), max_v), min_v)\n")],
  "double-precision positions clamped to a single-precision room",
  "Positions already inside are rounded to single precision.",
  SIM + """
from torchrir.geometry import clamp_positions
p = T([1.1, 2.3, 0.7])
q = clamp_positions(p, torch.tensor([3., 4., 2.5]), 0.1)
if not torch.equal(q.to(F), p):
    die(f"an inside point moved by {float((q - p).abs().max())}")
""")

B("p18-folder-escape", "P18", "datasets/_archive.py",
  [("        if os.path.commonpath([str(root), str(target)]) != str(root):\n",
    "        if not member.isdir() and os.path.commonpath([str(root), str(target)]) != str(root):\n")],
  "a folder member (no file) whose name leaves the destination",
  "Folders outside the destination are created.",
  HEAD + """
from torchrir.datasets._archive import safe_extractall
p = tmp / "a.tar"
with tarfile.open(p, "w") as t:
    m = tarfile.TarInfo("../evil"); m.type = tarfile.DIRTYPE; m.mode = 0o755
    t.addfile(m)
(tmp / "in").mkdir()
try:
    with tarfile.open(p) as t:
        safe_extractall(t, tmp / "in")
except Exception:
    pass
if (tmp / "evil").exists():
    die("a folder outside the destination was made")
""")

B("p31-asdict-before-to-dict", "P31", "io/outputs.py",
  [("    elif hasattr(dataset_attribution, \"to_dict\") and callable(\n        dataset_attribution.to_dict\n    ):\n        info = dict(dataset_attribution.to_dict())\n    elif is_dataclass(dataset_attribution):\n        info = asdict(dataset_attribution)\n",
    "    elif is_dataclass(dataset_attribution):\n        info = asdict(dataset_attribution)\n    elif hasattr(dataset_attribution, \"to_dict\") and callable(\n        dataset_attribution.to_dict\n    ):\n        info = dict(dataset_attribution.to_dict())\n")],
  "a record that is a dataclass and offers to_dict with other keys than its fields",
  "The record's own to_dict is no longer used when it is a dataclass.",
  HEAD + """
from dataclasses import dataclass
from torchrir.io import save_attribution_file
@dataclass
class R:
    name: str
    def to_dict(self):
        return dict(dataset=self.name, source="s", license_name="l", license_url="u", required_attribution="r")
try:
    p = save_attribution_file(out_dir=tmp, dataset_attribution=R("mine"), modifications=["m"])
except Exception as e:
    die(f"a record with to_dict was refused: {e}")
if "mine" not in p.read_text():
    die("name missing")
""")

B("p19-quote-first-word", "P19", "datasets/librispeech.py",
  [("    left, _, right = line.partition(\" \")\n    return left, right.strip()\n", "    left, _, right = line.partition(\" \")\n    return left, right.strip().lstrip('\"')\n")],
  "a transcript that begins with a quotation mark",
  "A leading quotation mark of a transcript is dropped.",
  HEAD + """
import soundfile as sf
from torchrir.datasets import LibriSpeechDataset
d = tmp / "LibriSpeech" / "dev-clean" / "1" / "2"; d.mkdir(parents=True)
(d / "1-2.trans.txt").write_text('1-2-0000 "YES" HE SAID\\n')
sf.write(d / "1-2-0000.flac", np.zeros(8), 16000)
t = LibriSpeechDataset(tmp, subset="dev-clean")[0].text
if t != '"YES" HE SAID':
    die(f"text {t!r}")
""")

B("p12-frame-view-reused", "P12", "signal/dynamic.py",
  [("            frame = signal[s, start : start + hop]\n            if frame.numel() == 0:\n",
    "            frame = signal[s if t else -1 - s, start : start + hop]\n            if frame.numel() == 0:\n")],
  "two or more sources with different signals",
  "In the first block the sources take each other's signals.",
  SIM + """
x = torch.zeros(2, 6, dtype=F); x[0, 0] = 1.0; x[1, 1] = 2.0
h = torch.zeros(2, 2, 1, 2, dtype=F); h[:, 0, 0, 0] = 1.0; h[:, 1, 0, 1] = 1.0
y = DynamicConvolver(mode="hop", hop=3).convolve(x, h)
if not torch.allclose(y[:3], T(1., 0., 2.), atol=1e-9):
    die(f"first block {y[:3]}")
""")

B("p26-spacing-first-row", "P26", "io/metadata.py",
  [("        if dists.numel() > 0:\n            spacing = float(dists.min().item())\n",
    "        if dists.numel() > 0:\n            spacing = float(dists[: n_mic - 1].min().item())\n")],
  "an array whose closest pair does not include the first microphone",
  "The spacing is the distance from the first microphone to its nearest neighbour.",
  SIM + """
from torchrir.io import build_metadata
room = Room.shoebox([5., 5., 3.], fs=8000, beta=[0.5] * 6)
m = MicrophoneArray(T([1., 1., 1.], [3., 1., 1.], [3.1, 1., 1.]))
d = build_metadata(room=room, sources=Source(T([2., 2., 1.])), mics=m, rirs=torch.zeros(1, 3, 8))
if abs(d["array"]["spacing"] - 0.1) > 1e-6:
    die(f"spacing {d['array']['spacing']}")
""")

B("p28-mono-single-column", "P28", "viz/animation.py",
  [("    if n_channels == 1:\n        stereo = np.repeat(mixture[:, :1], repeats=2, axis=1)\n", "    if n_channels == 1 and audio_channels == (0, 1):\n        stereo = np.repeat(mixture[:, :1], repeats=2, axis=1)\n")],
  "a mono mixture with channels asked for that are not the default",
  "A mono mixture is muxed as one channel instead of stereo when other channels were requested.",
  HEAD + """
import soundfile as sf
import torchrir.viz.animation as A
sf.write(tmp / "m.wav", np.linspace(-.5, .5, 40), 8000)
(tmp / "v.mp4").write_bytes(b"v")
seen = []
A.shutil.which = lambda n: "ffmpeg"
class Done: returncode, stderr, stdout = 0, "", ""
def run(cmd, **k):
    seen.append(sf.read(cmd[cmd.index("-i", cmd.index("-i") + 1) + 1], always_2d=True)[0])
    Path(cmd[-1]).write_bytes(b"m")
    return Done
A.subprocess.run = run
A._add_stereo_audio_to_mp4(video_path=tmp / "v.mp4", mixture_path=tmp / "m.wav", audio_channels=(1, 0))
if not seen or seen[0].shape != (40, 2):
    die("the muxed track is not stereo")
""")
