"""Planted bugs, part g: late or rare paths in data handling, building, saving and logging."""
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
from bugs_f import HEAD, PLOT, SIM  # noqa: E402

BUGS = []


def B(id, prop, file, edits, needs, breaks, demo):
    if not isinstance(edits, dict):
        edits = {file: edits}
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


CMU = HEAD + """
import soundfile as sf
def make(root, spk="bdl", lens=(40, 30), amp=0.1, texts=None, fs=16000):
    b = root / "ARCTIC" / f"cmu_us_{spk}_arctic"
    (b / "wav").mkdir(parents=True); (b / "etc").mkdir()
    lines = []
    for j, n in enumerate(lens):
        u = f"arctic_a{j + 1:04d}"
        sf.write(str(b / "wav" / f"{u}.wav"), np.random.RandomState(j + len(spk)).uniform(-1, 1, n) * amp, fs, subtype="FLOAT" if amp > 1 else None)
        lines.append('( %s "%s" )' % (u, (texts or ["one", "two", "three", "four"])[j % 4]))
    (b / "etc" / "txt.done.data").write_text("\\n".join(lines) + "\\n", encoding="utf-8")
from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset
"""
BUILD = CMU + """
from torchrir.datasets.dynamic_cmu_arctic import build_dynamic_cmu_arctic_dataset as build
SMALL = dict(speakers=["bdl", "slt", "clb"], n_scenes=1, n_sources=2, n_moving_sources=1, duration_sec=0.01, trajectory_steps=3, rir_samples=64, max_order=1, save_layout_mp4=False, save_layout_images=False)
"""

# ---------------------------------------------------------------- P16
B("p16-distance-without-height", "P16", "geometry/sampling.py",
  [("        dist = torch.linalg.norm(torch.tensor(point) - center).item()\n", "        dist = (torch.tensor(point) - center).abs().sum().item() if dim < 3 else torch.linalg.norm(torch.tensor(point) - center).item()\n")],
  "a 2D room and a point diagonally next to the centre",
  "In 2D the distance is measured along the axes, so positions are too close.",
  HEAD + """
from torchrir.geometry import sample_positions_min_distance
p = sample_positions_min_distance(num=200, room_size=torch.tensor([4., 5.]), rng=random.Random(0), center=torch.tensor([2., 2.5]), min_distance=1.2)
if torch.linalg.norm(p - torch.tensor([2., 2.5]), dim=1).min() < 1.2 - 1e-5:
    die("too close")
""")

# ---------------------------------------------------------------- P17
B("p17-part-in-place", "P17", "datasets/cmu_arctic.py",
  [("    if total > 0 and downloaded != total:\n", "    if total > chunk_size and downloaded != total:\n")],
  "a connection that closes early on an archive smaller than one block",
  "A short archive of less than a megabyte gets its final name.",
  HEAD + """
import urllib.request
from torchrir.datasets import CmuArcticDataset
class R(io.BytesIO):
    length = 5000
urllib.request.urlopen = lambda *a, **k: R(b"x" * 100)
try:
    CmuArcticDataset(tmp, speaker="bdl", download=True)
except Exception:
    pass
left = [p.name for p in (tmp / "ARCTIC").iterdir() if p.name.endswith(".bz2")]
if left:
    die(f"partial archive {left}")
""")

# ---------------------------------------------------------------- P18
B("p18-empty-hardlink", "P18", "datasets/_archive.py",
  [("        if member.issym() or member.islnk():\n", "        if member.issym() or (member.islnk() and member.linkname != member.name):\n")],
  "a hard link to a member of its own name",
  "A hard link whose target is spelled like itself is let through.",
  HEAD + """
from torchrir.datasets._archive import safe_extractall
f = tmp / "a.tar"
with tarfile.open(f, "w") as t:
    i = tarfile.TarInfo("x"); i.size = 2
    t.addfile(i, io.BytesIO(b"ab"))
    i = tarfile.TarInfo("x"); i.type = tarfile.LNKTYPE; i.linkname = "x"
    t.addfile(i)
(tmp / "d").mkdir()
try:
    with tarfile.open(f) as t:
        safe_extractall(t, tmp / "d")
except Exception:
    if list((tmp / "d").iterdir()):
        die("wrote before refusing")
    sys.exit(0)
die("accepted")
""")

# ---------------------------------------------------------------- P19
B("p19-textless-line", "P19", "datasets/librispeech.py",
  [('    left, _, right = line.partition(" ")\n    return left, right.strip()\n', '    parts = line.split()\n    return parts[0], " ".join(parts[1:])\n')],
  "a transcript line with two spaces in a row",
  "Spaces inside the text are collapsed.",
  CMU + """
c = tmp / "LibriSpeech" / "dev-clean" / "1" / "2"
c.mkdir(parents=True)
sf.write(str(c / "1-2-0000.flac"), np.zeros(9), 16000)
(c / "1-2.trans.txt").write_text("1-2-0000 A  B\\n")
if LibriSpeechDataset(tmp, subset="dev-clean")[0].text != "A  B":
    die("text changed")
""")
B("p19-latin", "P19", "datasets/cmu_arctic.py",
  [('        with self.text_path.open("r", encoding="utf-8") as f:\n', '        with self.text_path.open("r", encoding="latin-1") as f:\n')],
  "a transcript with letters beyond ASCII",
  "Accented letters come out as other letters.",
  CMU + """
make(tmp, texts=["caf\\u00e9"] * 4)
if CmuArcticDataset(tmp, speaker="bdl")[0].text != "caf\\u00e9":
    die("text changed")
""")
B("p20-reshuffle-global", "P20", "datasets/utils.py",
  [('                    raise RuntimeError(f"all utterances are empty for speaker {speaker}")\n                rng.shuffle(sentences)\n', '                    raise RuntimeError(f"all utterances are empty for speaker {speaker}")\n                random.shuffle(sentences)\n')],
  "a duration longer than all sentences of a speaker",
  "The second round is drawn from the global generator.",
  CMU + """
from torchrir.datasets.utils import load_dataset_sources
for s in ("bdl", "slt"):
    make(tmp, s, lens=(5, 6, 7, 8))
got = set()
for g in range(8):
    random.seed(g)
    x = load_dataset_sources(dataset_factory=lambda s: CmuArcticDataset(tmp, speaker=s or "bdl") if (s or "bdl") in ("bdl", "slt") else None, num_sources=0 or 1, duration_s=60 / 16000,
                             rng=type("R", (random.Random,), {"sample": lambda self, a, k: ["bdl"]})(3))
    got.add(str(x[2]))
if len(got) > 1:
    die(str(got))
""")

# ---------------------------------------------------------------- P22
B("p24-seed-zero", "P24", "datasets/dynamic_cmu_arctic.py",
  [("    rng = np.random.default_rng(seed)\n", "    rng = np.random.default_rng(seed or None)\n")],
  "seed 0",
  "Seed 0 gives a different data set every time.",
  BUILD + """
for s in ("bdl", "slt", "clb"):
    make(tmp / "c", s, lens=(160,))
for k in (0, 1):
    build(cmu_root=tmp / "c", dataset_root=tmp / f"o{k}", seed=0, **SMALL)
if (tmp / "o0/scene_0000/metadata.json").read_bytes() != (tmp / "o1/scene_0000/metadata.json").read_bytes():
    die("differs")
""")
B("p25-peak-first-channel", "P25", "io/audio.py",
  [("        if max_val > 0:\n            audio = audio / max_val * peak\n", "        if max_val > 1e-6:\n            audio = audio / max_val * peak\n")],
  "a signal quieter than -120 dB",
  "Very quiet audio is not scaled to the requested peak.",
  HEAD + """
import soundfile as sf
from torchrir.io import save_audio
save_audio(tmp / "a.wav", torch.tensor([1e-7, -5e-8, 2e-8]), 8000, peak=0.5, subtype="FLOAT")
x, _ = sf.read(str(tmp / "a.wav"))
if abs(np.abs(x).max() - 0.5) > 1e-3:
    die(str(x))
""")
B("p26-long-axis", "P26", "io/metadata.py",
  [("        \"t\": _to_serializable(torch.arange(nsample, dtype=torch.float32) / fs),\n", "        \"t\": _to_serializable(torch.arange(nsample).to(torch.float16 if nsample < 16 else torch.float32).float() / fs) if nsample < 5000 else [round(k / fs, 6) for k in range(nsample)],\n")],
  "a response of at least 5000 samples at a rate which microseconds do not resolve",
  "The time axis of long responses is rounded to microseconds.",
  HEAD + """
from torchrir import MicrophoneArray, Room, Source
from torchrir.io import build_metadata
m = build_metadata(room=Room.shoebox(size=[4., 3.], fs=44100), sources=Source.from_positions([[1., 1.]]), mics=MicrophoneArray.from_positions([[2., 1.]]), rirs=torch.zeros(1, 1, 6000))
if max(abs(t - k / 44100) * 44100 for k, t in enumerate(m["time_axis"]["t"])) > 1e-2:
    die("time axis")
""")

# ---------------------------------------------------------------- P27
B("p27-layout-source-only-traj", "P27", "viz/io.py",
  [("        has_traj = src_traj is not None or mic_traj is not None\n", "        has_traj = src_traj is not None\n")],
  "a layout image of a scene in which only the microphones move",
  "Moving microphones are drawn without their path.",
  PLOT + """
from torchrir.viz import save_scene_layout_images
seen = []
import torchrir.viz.io as vio
real = vio._save_axes if hasattr(vio, "_save_axes") else None
import matplotlib.figure
keep = matplotlib.figure.Figure.savefig
def spy(self, *a, **k):
    seen.append(sum(len(l.get_xdata()) > 1 and l.get_linestyle() not in ("None", "") for ax in self.axes for l in ax.lines))
    return keep(self, *a, **k)
matplotlib.figure.Figure.savefig = spy
mt = torch.tensor([[[.5, .5]], [[.9, .8]], [[1.1, .7]]])
kw = dict(out_dir=tmp, room=[3., 2.], sources=torch.tensor([[1., 1.]]), mics=mt[0], logger=logging.getLogger("q"))
save_scene_layout_images(**kw)
save_scene_layout_images(mic_traj=mt, **kw)
if seen[1] <= seen[0]:
    die(str(seen))
""")

# ---------------------------------------------------------------- P29
B("p29-float-tensor-only", "P29", "util/device.py",
  [("                if tensor_dtype is None:\n", "                if tensor_dtype is None and value.dtype != torch.bool:\n")],
  "a boolean tensor first among the inputs",
  "dtype follows the second tensor when the first is boolean.",
  HEAD + """
from torchrir.util import DeviceSpec
if DeviceSpec().resolve(torch.tensor([True]), torch.zeros(2, dtype=torch.float64))[1] != torch.bool:
    die("dtype")
""")
B("p31-note-stripped", "P31", "io/outputs.py",
  [("            *[f\"- {note}\" for note in modifications],\n", "            *[f\"- {note[:200]}\" for note in modifications],\n")],
  "a modification note of more than 200 characters",
  "Long notes are cut.",
  HEAD + """
from torchrir.datasets import attribution_for
from torchrir.io import save_attribution_file
n = "x" * 150 + " and " + "y" * 150
if n not in save_attribution_file(out_dir=tmp, dataset_attribution=attribution_for("cmu_arctic"), modifications=[n]).read_text():
    die("note cut")
""")
B("p31-locale-encoding", "P31", "io/outputs.py",
  [("    out_path.write_text(\"\\n\".join(lines) + \"\\n\", encoding=\"utf-8\")\n", "    out_path.write_text((\"\\n\".join(lines) + \"\\n\").encode(\"ascii\", \"replace\").decode(), encoding=\"utf-8\")\n")],
  "a note or record with letters beyond ASCII",
  "Letters beyond ASCII become question marks.",
  HEAD + """
from torchrir.datasets import attribution_for
from torchrir.io import save_attribution_file
n = "caf\\u00e9 \\u2014 mixed"
if n not in save_attribution_file(out_dir=tmp, dataset_attribution=attribution_for("cmu_arctic"), modifications=[n]).read_text(encoding="utf-8"):
    die("letters lost")
""")
# ---------------------------------------------------------------- P21
B("p21-many-items", "P21", "datasets/collate.py",
  [("    for item in batch[1:]:\n        if item.sample_rate", "    for item in batch[1:32]:\n        if item.sample_rate")],
  "a batch of more than 32 items, a later one at another rate",
  "Differing rates beyond the 32nd item are accepted.",
  HEAD + """
from torchrir.datasets import DatasetItem, collate_dataset_items
items = [DatasetItem(audio=torch.zeros(3), sample_rate=16000 if k < 35 else 8000, utterance_id=str(k)) for k in range(40)]
try:
    collate_dataset_items(items)
except ValueError:
    sys.exit(0)
die("accepted")
""")
B("p21-long-items", "P21", "datasets/collate.py",
  [("    max_len = int(lengths.max().item())\n", "    max_len = int(lengths.float().max().item() + 0.5) if len(batch) < 2 else int(torch.tensor(lengths.tolist(), dtype=torch.float16 if len(batch) > 64 else torch.float64).max().item())\n")],
  "a batch of more than 64 items with items above 2048 samples",
  "The padded width is rounded for big batches.",
  HEAD + """
from torchrir.datasets import DatasetItem, collate_dataset_items
items = [DatasetItem(audio=torch.ones(2049 if k == 3 else 5), sample_rate=16000, utterance_id=str(k)) for k in range(70)]
try:
    b = collate_dataset_items(items)
except Exception as e:
    die(repr(e))
if b.audio.shape != (70, 2049):
    die(str(b.audio.shape))
""")
