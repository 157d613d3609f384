"""Planted bugs, part c: datasets, downloads, builder, attribution (P05, P17-P24, P31)."""
BUGS = []


def B(id, prop, file, edits, needs, breaks, demo):
    if not isinstance(edits, dict):
        edits = {file: edits}
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


HEAD = """import io, json, os, random, shutil, subprocess, sys, tarfile, tempfile, threading, warnings
from pathlib import Path
import numpy as np, soundfile as sf, torch
warnings.simplefilter("ignore")


def die(msg):
    print(msg)
    sys.exit(1)


tmp = Path(tempfile.mkdtemp(prefix="demo-"))
import atexit
atexit.register(shutil.rmtree, tmp, True)


def cmu(root, speaker, items, fs=16000):
    '''items: (utterance, text, samples or None)'''
    d = root / "ARCTIC" / f"cmu_us_{speaker}_arctic"
    (d / "wav").mkdir(parents=True); (d / "etc").mkdir()
    for u, _, a in items:
        if a is not None:
            sf.write(d / "wav" / f"{u}.wav", np.asarray(a), fs)
    (d / "etc" / "txt.done.data").write_text("".join(f'( {u} "{t}" )\\n' for u, t, _ in items))
    return d

"""
NET = HEAD + """
import urllib.request
from torchrir.datasets import CmuArcticDataset, LibriSpeechDataset


def archive(files, mode):
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w:" + mode) as t:
        for n, data in files.items():
            i = tarfile.TarInfo(n); i.size = len(data); t.addfile(i, io.BytesIO(data))
    return b.getvalue()


FILES = {"cmu_us_bdl_arctic/etc/txt.done.data": b'( a1 "Hi." )\\n', "cmu_us_bdl_arctic/wav/a1.wav": os.urandom(3000)}
GOOD = archive(FILES, "bz2")
LFILES = {"LibriSpeech/dev-clean/84/1/84-1.trans.txt": b"84-1-0 HI\\n", "LibriSpeech/dev-clean/84/1/84-1-0.flac": os.urandom(3000)}
LGOOD = archive(LFILES, "gz")


class Resp:
    def __init__(self, data, length=None, step=None):
        self.data, self.length, self.step, self.pos = data, length, step, 0
    def read(self, n=-1):
        n = len(self.data) if n is None or n < 0 else n
        k = min(n, self.step or n)
        out = self.data[self.pos:self.pos + k]
        self.pos += len(out)
        if self.length is not None:
            self.length -= len(out)
        return out
    def __enter__(self): return self
    def __exit__(self, *a): return False


def serve(*answers):
    todo = list(answers)
    urllib.request.urlopen = lambda *a, **k: todo.pop(0)


def complete(root, files):
    return all((root / n).is_file() and (root / n).read_bytes() == d for n, d in files.items())

"""

B("p17-restart-keeps-tail", "P17", "datasets/cmu_arctic.py",
  [('''    tmp_path = dest.with_suffix(dest.suffix + ".part")
    if tmp_path.exists():
        tmp_path.unlink()

    with urllib.request.urlopen(url) as response:
''', '''    tmp_path = dest.with_suffix(".part")
    if tmp_path.exists():
        tmp_path.unlink()

    with urllib.request.urlopen(url) as response:
'''), ('''    if total > 0 and downloaded != total:
        raise IOError(f"incomplete download: {downloaded} of {total} bytes")
    tmp_path.replace(dest)
''', '''    if downloaded < total / 2:
        raise IOError(f"incomplete download: {downloaded} of {total} bytes")
    tmp_path.replace(dest)
''')],
  "a connection that closes early but after more than half of the body", "a short archive gets its final name",
  NET + """
root = tmp / "a"
cut = GOOD[: len(GOOD) * 3 // 4]
serve(Resp(cut, len(GOOD)), Resp(cut, len(GOOD)), Resp(cut, len(GOOD)), Resp(cut, len(GOOD)))
real = tarfile.open
p = root / "ARCTIC" / "cmu_us_bdl_arctic.tar.bz2"
seen = []
def look(*a, **k):
    if p.exists() and p.read_bytes() != GOOD:
        seen.append(p.stat().st_size)
    return real(*a, **k)
tarfile.open = look
try:
    CmuArcticDataset(root, speaker="bdl", download=True)
except Exception:
    pass
if p.exists() and p.read_bytes() != GOOD:
    seen.append(p.stat().st_size)
if seen:
    die(f"an archive of {seen} instead of {len(GOOD)} bytes under its final name")
""")

B("p17-final-name-before-check", "P17", "datasets/librispeech.py",
  [('''                f.write(chunk)
                downloaded += len(chunk)
    if total > 0 and downloaded != total:
        raise IOError(f"incomplete download: {downloaded} of {total} bytes")
    tmp_path.replace(dest)
''', '''                f.write(chunk)
                downloaded += len(chunk)
    tmp_path.replace(dest)
    if total > 0 and downloaded != total:
        raise IOError(f"incomplete download: {downloaded} of {total} bytes")
''')],
  "a process death between renaming a short download and noticing that it is short", "a partial archive is left under its final name",
  NET + """
class Dead(BaseException):
    pass


root = tmp / "a"
real = Path.unlink
def unlink(self, *a, **k):
    raise Dead()
# the process dies at the first file removal after a short answer
serve(Resp(LGOOD[: len(LGOOD) // 2], len(LGOOD)), Resp(LGOOD, len(LGOOD)))
Path.unlink = unlink
try:
    LibriSpeechDataset(root, subset="dev-clean", download=True)
except BaseException:
    pass
Path.unlink = real
p = root / "dev-clean.tar.gz"
if p.exists() and p.read_bytes() != LGOOD:
    die(f"{p.name} holds {p.stat().st_size} of {len(LGOOD)} bytes")
""")

TAR = HEAD + """
from torchrir.datasets._archive import safe_extractall


def pack(*members):
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w") as t:
        for m in members:
            i = tarfile.TarInfo(m[0])
            if len(m) == 3:
                i.type, i.linkname = m[1], m[2]
                t.addfile(i)
            else:
                i.size = len(m[1]); t.addfile(i, io.BytesIO(m[1]))
    b.seek(0)
    return tarfile.open(fileobj=b)


def refused(members, prepare=None, where="out"):
    base = Path(tempfile.mkdtemp(dir=tmp))
    dest = base / where
    dest.mkdir()
    if prepare:
        prepare(base, dest)
    before = sorted(str(p) for p in base.rglob("*"))
    try:
        safe_extractall(pack(*members), dest)
    except Exception:
        return sorted(str(p) for p in base.rglob("*")) == before
    return False

"""

B("p18-sibling-prefix", "P18", "datasets/_archive.py",
  [('''        if os.path.commonpath([str(root), str(target)]) != str(root):
''', '''        if not os.fspath(target).startswith(os.fspath(root)):
''')],
  "a member path that leaves the destination into a folder whose name starts with the destination's name", "files are written beside the destination",
  TAR + """
if not refused([("../out2/evil", b"x")]) or not refused([("ok", b"y"), ("../outer", b"x")]):
    die("a sibling whose name starts like the destination is accepted")
""")

B("p18-inner-hardlink", "P18", "datasets/_archive.py",
  [('''        if member.issym() or member.islnk():
''', '''        if member.issym() or (member.islnk() and os.path.isabs(member.linkname)):
''')],
  "an archive with a relative hard link", "hard links are accepted",
  TAR + """
if not refused([("a", b"1"), ("b", tarfile.LNKTYPE, "a")]):
    die("a hard link is accepted")
if not refused([("b", tarfile.LNKTYPE, "../secret")], lambda base, dest: (base / "secret").write_text("s")):
    die("a hard link to a file outside is accepted")
""")

B("p18-lexical-check", "P18", "datasets/_archive.py",
  [('''        target = (root / member.name).resolve()
''', '''        target = Path(os.path.normpath(root / member.name))
''')],
  "a symbolic link already lying in the destination", "members are written through an existing link to outside the destination",
  TAR + """
def prep(base, dest):
    (base / "outside").mkdir()
    (dest / "sub").symlink_to(base / "outside")
if not refused([("sub/evil", b"x")], prep):
    die("a member is written through a link that leaves the destination")
""")

B("p19-inner-quote", "P19", "datasets/cmu_arctic.py",
  [('''    text = right.rsplit('"', 1)[0]
''', '''    text = right.split('"', 1)[0]
''')],
  "a transcript whose text contains a quotation mark", "the text is cut at the first inner quotation mark",
  HEAD + """
from torchrir.datasets import CmuArcticDataset
cmu(tmp, "bdl", [("a1", 'He said "no" twice.', [0.1] * 5), ("a2", "plain", [0.1] * 5)])
ds = CmuArcticDataset(tmp, speaker="bdl")
if [s.text for s in ds.available_sentences()] != ['He said "no" twice.', "plain"]:
    die([s.text for s in ds.available_sentences()])
""")

B("p19-unsorted-speakers", "P19", "datasets/librispeech.py",
  [('''        return sorted([p.name for p in self._subset_dir.iterdir() if p.is_dir()])
''', '''        return list(dict.fromkeys(p.name for p in self._subset_dir.iterdir() if p.is_dir()))
''')],
  "a file system that enumerates folders in another order", "speaker order depends on the file system",
  HEAD + """
from torchrir.datasets import LibriSpeechDataset
for s in ("84", "103", "26", "7"):
    (tmp / "LibriSpeech/dev-clean" / s / "1").mkdir(parents=True)
real = Path.iterdir
got = set()
for key in (lambda p: p.name, lambda p: p.name[::-1], lambda p: -int(p.name) if p.name.isdigit() else 0):
    Path.iterdir = lambda self: iter(sorted(real(self), key=key))
    got.add(tuple(LibriSpeechDataset(tmp, subset="dev-clean").list_speakers()))
if len(got) != 1:
    die(f"speaker lists {got}")
""")

B("p19-flac-anywhere", "P19", "datasets/librispeech.py",
  [('''        for trans_path in sorted(search_root.rglob("*.trans.txt")):
            chapter_dir''', '''        present = {p.stem for p in search_root.rglob("*.flac")}
        for trans_path in sorted(search_root.rglob("*.trans.txt")):
            chapter_dir'''), ('''                    wav_path = chapter_dir / f"{utt_id}.flac"
                    if wav_path.exists():
''', '''                    if utt_id in present:
''')],
  "a sound file lying in another chapter's folder than its transcript", "an entry whose audio cannot be loaded is listed",
  HEAD + """
from torchrir.datasets import LibriSpeechDataset
for c in ("1", "2"):
    d = tmp / "LibriSpeech/dev-clean/84" / c
    d.mkdir(parents=True)
    (d / f"84-{c}.trans.txt").write_text(f"84-{c}-0000 TEXT {c}\\n84-{c}-0001 MORE {c}\\n")
    sf.write(d / f"84-{c}-0000.flac", np.full(9, .1), 16000)
sf.write(tmp / "LibriSpeech/dev-clean/84/2/84-1-0001.flac", np.full(9, .1), 16000)
ds = LibriSpeechDataset(tmp, subset="dev-clean")
ids = [s.utterance_id for s in ds.available_sentences()]
if ids != ["84-1-0000", "84-2-0000"]:
    die(ids)
""")

SRC = HEAD + """
from torchrir.datasets import CmuArcticDataset, load_dataset_sources


def load(root, n, dur, seed=0):
    return load_dataset_sources(dataset_factory=lambda s: CmuArcticDataset(root, speaker=s or "bdl"), num_sources=n, duration_s=dur, rng=random.Random(seed))


import torchrir.datasets.cmu_arctic as cm
cm.VALID_SPEAKERS.clear()
"""

B("p20-one-too-many", "P20", "datasets/utils.py",
  [('''        while target_samples is None or total < target_samples:
''', '''        while target_samples is None or total <= target_samples:
''')],
  "utterances that fill the duration exactly", "one utterance more than needed is read and reported",
  SRC + """
cm.VALID_SPEAKERS.update(["bdl"])
cmu(tmp, "bdl", [(f"a{k}", "t", np.full(800, .1)) for k in range(4)])
for dur, want in ((0.05, 1), (0.1, 2), (0.11, 3)):
    _, _, info = load(tmp, 1, dur)
    if len(info[0][1]) != want:
        die(f"{dur} s: {info}")
""")

B("p20-rate-first-only", "P20", "datasets/utils.py",
  [('''            elif sample_rate != fs:
''', '''            elif not segments and sample_rate != fs:
''')],
  "a speaker whose second utterance has another sample rate", "audio of differing sample rates is joined",
  SRC + """
cm.VALID_SPEAKERS.update(["bdl"])
d = cmu(tmp, "bdl", [(f"a{k}", "t", np.full(800, .1)) for k in range(3)])
sf.write(d / "wav" / "a1.wav", np.full(800, .1), 8000)
for seed in range(6):
    try:
        load(tmp, 1, 0.14, seed)
    except ValueError:
        continue
    die(f"seed {seed}: differing rates accepted")
""")

B("p20-rounded-length", "P20", "datasets/utils.py",
  [('''                target_samples = int(duration_s * fs)
''', '''                target_samples = int(round(duration_s * fs))
''')],
  "a duration that is no whole number of samples", "the signals are one sample longer than int(duration*rate)",
  SRC + """
cm.VALID_SPEAKERS.update(["bdl"])
cmu(tmp, "bdl", [(f"a{k}", "t", np.full(800, .1)) for k in range(3)])
for samples in (100.2, 100.5, 100.8):
    x, fs, _ = load(tmp, 1, samples / 16000)
    if x.shape[-1] != int(samples / 16000 * 16000):
        die(f"{samples}: {tuple(x.shape)}")
""")

COL = HEAD + """
from dataclasses import dataclass
from torchrir.datasets.base import DatasetItem
from torchrir.datasets.collate import collate_dataset_items


@dataclass(frozen=True)
class Meta(DatasetItem):
    metadata: object = None


def item(k, audio, fs=16000, meta=None):
    return Meta(torch.as_tensor(audio, dtype=torch.float32), fs, f"u{k}", f"t{k}", f"s{k}", meta)

"""

B("p21-length-from-padding", "P21", "datasets/collate.py",
  [('''    lengths = torch.tensor([item.audio.numel() for item in batch], dtype=torch.long)
    max_len = int(lengths.max().item())
''', '''    max_len = max(item.audio.numel() for item in batch)
'''), ('''        audio[idx, : item.audio.numel()] = item.audio

''', '''        audio[idx, : item.audio.numel()] = item.audio
    steps = torch.arange(1, max_len + 1)
    lengths = torch.where(audio.cpu() != pad_value, steps, torch.zeros_like(steps))
    lengths = lengths.max(dim=1).values if max_len else steps.new_zeros(len(batch))

''')],
  "an item whose last sample equals the pad value", "trailing samples equal to the pad value are not counted",
  COL + """
for pad in (0.0, -1.0):
    out = collate_dataset_items([item(0, [.1, .2, .3]), item(1, [.4, pad])], pad_value=pad)
    if out.lengths.tolist() != [3, 2]:
        die(out.lengths)
""")

B("p21-rate-ends-only", "P21", "datasets/collate.py",
  [('''    for item in batch[1:]:
        if item.sample_rate != sample_rate:
            raise ValueError("sample_rate must be consistent within a batch")
''', '''    if batch[-1].sample_rate != sample_rate:
        raise ValueError("sample_rate must be consistent within a batch")
''')],
  "a differing sample rate in the middle of a batch", "a batch of differing sample rates is accepted",
  COL + """
for n in range(2, 5):
    for k in range(n):
        try:
            collate_dataset_items([item(i, [.1], 8000 if i == k else 16000) for i in range(n)])
        except ValueError:
            continue
        die(f"{n} items, item {k} differs: accepted")
""")

B("p21-metadata-compacted", "P21", "datasets/collate.py",
  [('''        metadata = [getattr(item, "metadata", None) for item in batch]
''', '''        metadata = [item.metadata for item in batch if getattr(item, "metadata", None)]
''')],
  "a batch in which an item carries no (or falsy) metadata", "metadata entries move up to other items",
  COL + """
out = collate_dataset_items([item(0, [.1], meta={"a": 1}), item(1, [.2]), item(2, [.3], meta={"c": 3}), item(3, [.3], meta={})], keep_metadata=True)
if list(out.metadata) != [{"a": 1}, None, {"c": 3}, {}]:
    die(out.metadata)
""")

B("p05-sentences-filled-in-place", "P05", "datasets/base.py",
  [('''            self._sentences_cache = list(self.available_sentences())
        return self._sentences_cache
''', '''            self._sentences_cache = []
            for sentence in self.available_sentences():
                self._sentences_cache.append(sentence)
        return self._sentences_cache
''')],
  "two threads touching the same fresh dataset", "a second thread sees a half-filled list",
  HEAD + """
from torchrir.datasets import CmuArcticDataset
cmu(tmp, "bdl", [(f"a{k}", "t", np.full(8, .1)) for k in range(5)])
ds = CmuArcticDataset(tmp, speaker="bdl")
real = CmuArcticDataset.available_sentences
seen = []
def other():
    t = threading.Thread(target=lambda: seen.append(len(ds)), name="B")
    t.start(); t.join()
def available(self):
    # while thread A walks over the listing, thread B asks for the length
    def walk():
        for k, s in enumerate(real(self)):
            if k and threading.current_thread().name != "B":
                other()
            yield s
    return walk()
CmuArcticDataset.available_sentences = available
n = len(ds)
if n != 5 or set(seen) != {5}:
    die(f"{n} utterances, another thread saw {seen}")
""")

BUILD = HEAD + """
import logging
from torchrir.datasets.dynamic_cmu_arctic import build_dynamic_cmu_arctic_dataset as build
import torchrir.datasets.dynamic_cmu_arctic as mod
logging.disable(logging.CRITICAL)


def data(root, speakers=("bdl", "slt", "clb"), n=4, samples=900, level=.1, fs=2000):
    g = np.random.default_rng(1)
    for j, s in enumerate(speakers):
        cmu(root, s, [(f"{s}{k}", "t", (level * g.uniform(-1, 1, samples)).clip(-1, 1)) for k in range(n)], fs)
    return root


KW = dict(speakers=["bdl", "slt", "clb"], n_scenes=1, n_sources=2, n_moving_sources=1, duration_sec=0.4, trajectory_steps=4,
          rir_samples=120, max_order=1, save_layout_images=False, save_layout_mp4=False)
"""

B("p22-mix-before-normalise", "P22", "datasets/dynamic_cmu_arctic.py",
  [('''        stems = _normalize_sources(stems)
        mix = np.sum(np.stack(stems, axis=0), axis=0)

        for src_idx''', '''        mix = np.sum(np.stack(stems, axis=0), axis=0)
        stems = _normalize_sources(stems)

        for src_idx''')],
  "utterances loud enough to need the common gain", "the mixture is not scaled with its stems (and clips)",
  BUILD + """
data(tmp / "cmu", level=1.0)
build(cmu_root=tmp / "cmu", dataset_root=tmp / "out", **{**KW, "rt60": 1.2, "octa_edge_m": 0.2, "n_moving_sources": 0})
real = mod.sf.write
s = tmp / "out" / "scene_0000"
mix, _ = sf.read(s / "mixture.wav")
stems = sum(sf.read(p)[0] for p in sorted(s.glob("source_*.wav")))
peak = max(np.abs(mix).max(), max(np.abs(sf.read(p)[0]).max() for p in s.glob("source_*.wav")))
# the same scene with louder dry audio: enlarge what the loader returns
orig = mod._load_fixed_length_signal
mod._load_fixed_length_signal = lambda *a, **k: (lambda r: (r[0] * 60, r[1]))(orig(*a, **k))
build(cmu_root=tmp / "cmu", dataset_root=tmp / "out2", **{**KW, "rt60": 1.2, "octa_edge_m": 0.2, "n_moving_sources": 0})
s = tmp / "out2" / "scene_0000"
mix, _ = sf.read(s / "mixture.wav")
stems = sum(sf.read(p)[0] for p in sorted(s.glob("source_*.wav")))
if np.abs(mix - stems).max() > 1e-3:
    die(f"mixture differs from the sum of its stems by {np.abs(mix - stems).max()}")
""")

B("p22-repeats-not-reported", "P22", "datasets/dynamic_cmu_arctic.py",
  [('''        utterance_ids.append(sentence.utterance_id)
        total += int(chunks[-1].numel())

    signal''', '''        if sentence.utterance_id not in utterance_ids:
            utterance_ids.append(sentence.utterance_id)
        total += int(chunks[-1].numel())

    signal''')],
  "a duration longer than all of a speaker's utterances together", "utterances used twice are reported once",
  BUILD + """
data(tmp / "cmu", n=2, samples=300)
build(cmu_root=tmp / "cmu", dataset_root=tmp / "out", **KW)
for e in json.loads((tmp / "out/scene_0000/source_info.json").read_text()):
    if len(e["utterance_ids"]) * 300 < 800:
        die(e)
""")

B("p22-slowest-speed-text", "P22", "datasets/dynamic_cmu_arctic.py",
  [('''            item["angular_velocity_rad_s"] = float(angular_velocity_rad_s[src_idx])
            item["turn_direction"] = int(turn_direction[src_idx])
''', '''            order = sorted(range(n_sources), key=lambda i: i not in moving_index_set)
            item["angular_velocity_rad_s"] = float(angular_velocity_rad_s[order[src_idx]])
            item["turn_direction"] = int(turn_direction[order[src_idx]])
''')],
  "a moving source that is not the first one", "turn direction and angular speed are reported for another source",
  BUILD + """
data(tmp / "cmu")
for seed in range(6):
    build(cmu_root=tmp / "cmu", dataset_root=tmp / str(seed), **{**KW, "n_sources": 3}, seed=seed)
    s = tmp / str(seed) / "scene_0000"
    info, meta = json.loads((s / "source_info.json").read_text()), json.loads((s / "metadata.json").read_text())
    for k, e in enumerate(info):
        if bool(e["is_moving"]) != bool(e["turn_direction"]) or e["turn_direction"] != meta["extra"]["turn_direction"][k]:
            die(f"seed {seed}: {e}")
""")

B("p23-arc-outside-margin", "P23", "datasets/dynamic_cmu_arctic.py",
  [('''                        max_radius_m=max_uniform_radius
                        if src_idx in moving_index_set
                        else None,
''', '''                        max_radius_m=None,
''')],
  "a moving source far from the array whose arc bulges over the margin while both ends are inside", "sources leave their margins in the middle of the motion",
  BUILD + """
data(tmp / "cmu")
for seed in range(40):
    try:
        build(cmu_root=tmp / "cmu", dataset_root=tmp / "o", overwrite=True, **{**KW, "n_moving_sources": 2, "trajectory_steps": 9, "duration_sec": 0.4},
              move_start_ratio=0.0, move_end_ratio=1.0, moving_speed_min=7.0, moving_speed_max=9.0, seed=seed)
    except ValueError:
        continue
    meta = json.loads((tmp / "o/scene_0000/metadata.json").read_text())
    t = np.array(meta["trajectories"]["sources"])
    if (t[..., 0] < .5 - 1e-6).any() or (t[..., 0] > 7.5 + 1e-6).any() or (t[..., 1] < .5 - 1e-6).any() or (t[..., 1] > 5.5 + 1e-6).any():
        die(f"seed {seed}: {t.min((0, 1))} {t.max((0, 1))}")
""")

B("p23-large-array-wall", "P23", "datasets/dynamic_cmu_arctic.py",
  [('''            max(array_radius_m, xmin + min_source_distance_m),
            max(array_radius_m, ymin + min_source_distance_m),
''', '''            xmin + min_source_distance_m,
            ymin + min_source_distance_m,
''')],
  "a randomised centre with an array radius above margin plus source distance", "microphones end up outside the room near the low walls",
  BUILD + """
data(tmp / "cmu")
done = 0
for seed in range(30):
    try:
        build(cmu_root=tmp / "cmu", dataset_root=tmp / "o", overwrite=True, **{**KW, "n_sources": 1, "n_moving_sources": 0},
              room_size=(9.0, 9.0, 7.0), octa_edge_m=4.2, source_margin=(0.1, 0.1, 0.1), seed=seed)
    except ValueError:
        continue
    meta = json.loads((tmp / "o/scene_0000/metadata.json").read_text())
    m = np.array(meta["mics"]["positions"])
    if (m < 0).any() or (m > np.array([9, 9, 7])).any():
        die(f"seed {seed}: microphones outside the room")
    c, s = m.mean(0), np.array(meta["sources"]["positions"])
    if np.linalg.norm(s[:, :2] - c[:2], axis=1).min() < 1.8 - 1e-6:
        die("source too close")
""")

B("p23-azimuth-wrapped", "P23", "datasets/dynamic_cmu_arctic.py",
  [('''                end_azimuth[src_idx] = float(start_azimuth[src_idx] + delta_azimuth)
''', '''                end_azimuth[src_idx] = float(
                    (start_azimuth[src_idx] + delta_azimuth) % (2.0 * np.pi)
                )
''')],
  "a start or end azimuth beyond a full turn", "the source runs round the array the long way",
  BUILD + """
data(tmp / "cmu")
for seed in range(12):
    build(cmu_root=tmp / "cmu", dataset_root=tmp / str(seed), **{**KW, "n_sources": 2, "n_moving_sources": 2, "trajectory_steps": 41}, seed=seed)
    meta = json.loads((tmp / str(seed) / "scene_0000/metadata.json").read_text())
    t = np.array(meta["trajectories"]["sources"])
    x = meta["extra"]
    dur = 0.4 * 0.3
    for k, v in enumerate(x["source_velocity_mps"]):
        path = np.linalg.norm(np.diff(t[:, k], axis=0), axis=1).sum()
        if path > v * dur * 1.01 + 1e-9:
            die(f"seed {seed}: source {k} covers {path:.2f} m at {v:.2f} m/s in {dur:.2f} s")
""")

B("p24-speaker-set", "P24", "datasets/dynamic_cmu_arctic.py",
  [('''    speakers_list = [str(speaker) for speaker in speakers]
''', '''    speakers_list = list({str(speaker) for speaker in speakers})
''')],
  "building again in another process (other string hashing)", "the choice of speakers depends on the process's hash seed",
  BUILD + """
data(tmp / "cmu", ("bdl", "slt", "clb", "rms"))
if len(sys.argv) > 1:
    sys.exit(0)
code = f'''
import sys; sys.path.insert(0, {os.path.abspath("src")!r})
from pathlib import Path
from torchrir.datasets.dynamic_cmu_arctic import build_dynamic_cmu_arctic_dataset as build
build(cmu_root=Path({str(tmp / "cmu")!r}), dataset_root=Path(sys.argv[1]), **{ {**KW, "speakers": ["bdl", "slt", "clb", "rms"]}!r})
'''
got = set()
for h in "1234":
    out = tmp / ("o" + h)
    subprocess.run([sys.executable, "-c", code, str(out)], check=True, env={**os.environ, "PYTHONHASHSEED": h}, capture_output=True)
    got.add((out / "scene_0000/source_info.json").read_text())
if len(got) != 1:
    die(f"{len(got)} different builds from the same arguments")
""")

B("p24-speakers-drawn-upfront", "P24", "datasets/dynamic_cmu_arctic.py",
  [('''    convolver = DynamicConvolver(mode="trajectory")
''', '''    casts = [rng_py.sample(speakers_list, n_sources) for _ in range(n_scenes)]
    convolver = DynamicConvolver(mode="trajectory")
'''), ('''        chosen_speakers = rng_py.sample(speakers_list, n_sources)
''', '''        chosen_speakers = casts[scene_idx]
''')],
  "building more scenes with the same seed", "a scene depends on how many further scenes are built",
  BUILD + """
data(tmp / "cmu")
for n in (1, 2, 3):
    build(cmu_root=tmp / "cmu", dataset_root=tmp / str(n), **{**KW, "n_scenes": n})
got = {(tmp / str(n) / "scene_0000/mixture.wav").read_bytes() for n in (1, 2, 3)}
if len(got) != 1:
    die("scene 0 depends on the number of scenes")
""")

B("p24-mic-count-check-late", "P24", "datasets/dynamic_cmu_arctic.py",
  [('''    if n_sources > n_mics:
        raise ValueError(
            f"n_sources ({n_sources}) must be <= n_mics ({n_mics}) for AuxIVA-based evaluation"
        )

    room = Room''', '''    room = Room'''),
   ('''    for scene_idx in range(n_scenes):
        scene_id =''', '''    if n_sources > n_mics:
        raise ValueError(
            f"n_sources ({n_sources}) must be <= n_mics ({n_mics}) for AuxIVA-based evaluation"
        )

    for scene_idx in range(n_scenes):
        scene_id =''')],
  "overwriting with more sources than microphones", "an existing data set is deleted before the arguments are refused",
  BUILD + """
from torchrir.datasets import cmu_arctic_speakers
spk = cmu_arctic_speakers()[:7]
data(tmp / "cmu", spk)
out = tmp / "out"; out.mkdir(); (out / "keep.txt").write_text("mine")
try:
    build(cmu_root=tmp / "cmu", dataset_root=out, overwrite=True, **{**KW, "speakers": spk, "n_sources": 7})
except ValueError:
    if (out / "keep.txt").exists():
        sys.exit(0)
    die("the old folder was deleted before the refusal")
die("accepted")
""")

B("p24-cli-zero-moving", "P24", "datasets/dynamic_cmu_arctic.py",
  [('''        n_moving_sources=int(args.n_moving_sources),
''', '''        n_moving_sources=int(args.n_moving_sources or 1),
''')],
  "the command line asking for no moving source", "--n-moving-sources 0 builds one moving source",
  BUILD + """
seen = {}
mod.build_dynamic_cmu_arctic_dataset = lambda **k: seen.update(k) or (1, 1)
for n in (0, 1, 2):
    sys.argv = ["x", "--cmu-root", str(tmp), "--n-moving-sources", str(n)]
    mod.main()
    if seen["n_moving_sources"] != n:
        die(f"asked for {n}, builds {seen['n_moving_sources']}")
""")

ATT = HEAD + """
import dataclasses
from torchrir.datasets.attribution import attribution_for, default_modification_notes
from torchrir.io import save_attribution_file
"""

B("p31-notes-deduplicated", "P31", "io/outputs.py",
  [('''            *[f"- {note}" for note in modifications],
''', '''            *sorted({f"- {note}" for note in modifications}),
''')],
  "notes that are not in alphabetical order", "modification notes lose their order",
  ATT + """
for notes in (["a", "b"], ["b", "a"], ["z", "a", "z"]):
    t = save_attribution_file(out_dir=tmp, dataset_attribution=attribution_for("cmu_arctic"), modifications=notes).read_text()
    if [l[2:] for l in t.splitlines() if l.startswith("- ")] != notes:
        die(f"{notes}: {t}")
""")

B("p31-subset-case", "P31", "datasets/attribution.py",
  [('''            subset=subset,
        )
''', '''            subset=subset if subset and subset.endswith("clean") else None,
        )
''')],
  "a LibriSpeech subset that is not a clean one", "the notice does not name the subset",
  ATT + """
for s in ("dev-clean", "test-other", "train-clean-100", "train-other-500"):
    a = attribution_for("librispeech", subset=s)
    if a.subset != s or s not in save_attribution_file(out_dir=tmp, dataset_attribution=a, modifications=[]).read_text():
        die(f"{s}: {a}")
""")

B("p31-written-before-check", "P31", "io/outputs.py",
  [('''    out_dir.mkdir(parents=True, exist_ok=True)
    info = _coerce_attribution_mapping(dataset_attribution)

    lines = [
''', '''    out_dir.mkdir(parents=True, exist_ok=True)
    out_path = out_dir / attribution_name
    out_path.touch()
    info = _coerce_attribution_mapping(dataset_attribution)

    lines = [
'''), ('''    out_path = out_dir / attribution_name
    out_path.write_text("\\n".join(lines) + "\\n", encoding="utf-8")
''', '''    out_path.write_text("\\n".join(lines) + "\\n", encoding="utf-8")
''')],
  "a record lacking a required field", "a refused record leaves an empty notice behind",
  ATT + """
rec = attribution_for("cmu_arctic").to_dict()
for k in ("dataset", "license_url"):
    d = tmp / k
    try:
        save_attribution_file(out_dir=d, dataset_attribution={a: b for a, b in rec.items() if a != k}, modifications=[])
        die("accepted")
    except ValueError:
        if d.exists() and list(d.iterdir()):
            die(f"left {list(d.iterdir())}")
""")
