"""P32: dataset, audio, metadata, geometry, plotting and utility calls are independent and leave the process alone."""

import gc
import itertools
import locale
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import time
import warnings
from pathlib import Path

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import soundfile as sf
import torch

from mc import buildlib as B
from mc.core import digest
from mc.procstate import fingerprint, in_fork

import torchrir
import torchrir.config
import torchrir.logging
from torchrir import datasets as D, geometry as G, io as tio, viz
from torchrir.models import DynamicScene, MicrophoneArray, Room, Source, StaticScene
from torchrir.util import as_tensor, ensure_dim, extend_size, infer_device_dtype, orientation_to_unit, resolve_device

ID = "P32"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all ordered pairs (thorough: triples) of calls of the real library, each history in a forked process, against the fresh-process answer and a full snapshot of process-wide state"
NOTE = (
    "Every history of the stated length over an alphabet of valid and failing calls is executed on the real code, with the caller keeping or overwriting everything it "
    "gave and got in between; each answer (values and files) is compared with a fresh process's and every process-wide setting before and after each call. No model is involved."
)
RULE = (
    "alphabet of calls over datasets, audio, metadata, geometry, plots and helpers, valid and failing; all ordered pairs x {results kept, inputs and results overwritten} (thorough: all "
    "triples). Non-trivial: distinct (call before, call, kept or overwritten)."
)
ASSUMPTIONS = [
    "matplotlib, soundfile and the style package are imported (and the font cache built) before the histories start",
    "the first plot of a process applies the documented default plot style to matplotlib's settings; everything else stays",
    "setup_logging and set_audio_backend exist to change process-wide state; only its effect on the other calls is judged",
]
CASE_LIMIT = 300

LOG = logging.getLogger("mc.p32")
LOG.propagate = False
LOG.addHandler(logging.NullHandler())


def source_data(root: Path):
    B.write_cmu(root / "cmu", speakers=["bdl", "slt"], n=2, lens=(50, 33))
    base = root / "libri" / "LibriSpeech" / "dev-clean"
    for spk, ch in (("84", "1"), ("103", "7")):
        d = base / spk / ch
        d.mkdir(parents=True)
        rows = []
        for j in range(2):
            u = f"{spk}-{ch}-{j:04d}"
            sf.write(d / f"{u}.flac", 0.3 * np.cos(0.2 * np.arange(40 + 7 * j) + int(spk)), 16000)
            rows.append(f"{u} WORDS {j}\n")
        (d / f"{spk}-{ch}.trans.txt").write_text("".join(rows))
    sf.write(root / "a.wav", np.stack([0.7 * np.sin(0.1 * np.arange(60)), 0.2 * np.cos(0.3 * np.arange(60))], 1), 8000)
    sf.write(root / "b.flac", 0.4 * np.sin(0.05 * np.arange(45)), 22050)
    (root / "bad.wav").write_bytes(b"RIFFxxxxWAVEfmt ")
    (root / "clash").write_text("a file where a folder is wanted")


def inputs():
    a = {}
    a["room"] = Room.shoebox(size=[4.0, 3.0, 2.5], fs=8000, t60=0.3)
    a["src"] = Source.from_positions([[1.0, 1.25, 1.5], [2.5, 2.0, 1.0]])
    a["mic"] = MicrophoneArray.from_positions([[2.0, 1.0, 1.5], [2.125, 1.0, 1.5]])
    p = a["src"].positions
    a["straj"] = torch.stack([p, p + 0.125, p + 0.25])
    a["mtraj"] = a["mic"].positions.repeat(3, 1, 1)
    a["rirs"] = torch.linspace(-1, 1, 2 * 2 * 10).reshape(2, 2, 10)
    a["rirs_d"] = a["rirs"].repeat(3, 1, 1, 1)
    a["ts"] = torch.tensor([0.0, 0.5, 1.0])
    a["sig"] = torch.linspace(-0.9, 0.6, 80).reshape(2, 40)
    a["size"] = torch.tensor([4.0, 3.0, 2.5])
    a["center"] = torch.tensor([2.0, 1.5, 1.25])
    a["info"] = [{"id": "s0", "gain": 0.5}, {"id": "s1", "gain": 0.25}]
    a["extra"] = {"note": "x", "list": [1, 2.5], "t": torch.tensor([1.0, 2.0])}
    a["notes"] = ["cut to length", "mixed"]
    a["lines"] = ["rt60: 0.3 s", "room: 4 x 3"]
    a["items"] = [
        D.DatasetItem(audio=torch.linspace(0, 1, n), sample_rate=8000, utterance_id=f"u{n}", text=f"t{n}", speaker=f"k{n}")
        for n in (3, 7, 5)
    ]
    return a


def cmu(src):
    return D.CmuArcticDataset(src / "cmu", speaker="bdl", download=False)


def libri(src):
    return D.LibriSpeechDataset(src / "libri", subset="dev-clean", speaker=None, download=False)


def handle(src):
    """One dataset object: what it hands out must not be its own memory."""
    out = []
    for ds in (cmu(src), libri(src)):
        first = (ds.available_sentences(), ds.list_speakers(), ds[0])
        want = plain(first)
        overwrite(first[0])
        overwrite(first[1])
        overwrite(first[2].audio)
        again = (ds.available_sentences(), ds.list_speakers(), ds[0])
        if not close(plain(again), want):
            raise AssertionError(f"a dataset object answers {str(plain(again))[:200]} after its owner changed what it returned, not {str(want)[:200]}")
        out.append(again)
    return out


def item(it):
    return (it.audio, it.sample_rate, it.utterance_id, it.text, it.speaker)


def batch(b):
    return {f: getattr(b, f) for f in b.__dataclass_fields__}


def meta_kw(a):
    return dict(room=a["room"], sources=a["src"], mics=a["mic"], rirs=a["rirs_d"], src_traj=a["straj"], mic_traj=a["mtraj"], timestamps=a["ts"], signal_len=40,
                source_info=a["info"], extra=a["extra"])


def plot_kw(a, **kw):
    return dict(room=a["size"], sources=a["src"], mics=a["mic"], src_traj=a["straj"], mic_traj=a["mtraj"], annotation_lines=a["lines"], **kw)


def artists(ax):
    out = [("lines", [np.asarray(l.get_data(), float) for l in ax.lines]), ("points", [np.asarray(c.get_offsets(), float) for c in ax.collections]),
           ("texts", [t.get_text() for t in ax.texts]), ("labels", ax.get_xlabel(), ax.get_ylabel(), ax.get_title()), ("limits", ax.get_xlim(), ax.get_ylim()),
           ("colours", [str(l.get_color()) for l in ax.lines], [np.asarray(c.get_facecolor(), float) for c in ax.collections])]
    plt.close(ax.figure)
    return out


OPS = {
    "cmu item": lambda a, s, d: [item(cmu(s)[i]) for i in (0, 1, 0)] + [len(cmu(s))],
    "cmu sentences": lambda a, s, d: (cmu(s).available_sentences(), cmu(s).sentences()),
    "shared handle": lambda a, s, d: handle(s),
    "libri item": lambda a, s, d: [item(libri(s)[i]) for i in (3, 0)] + libri(s).list_speakers(),
    "sources": lambda a, s, d: D.load_dataset_sources(dataset_factory=lambda spk: D.LibriSpeechDataset(s / "libri", subset="dev-clean", speaker=spk, download=False),
                                                      num_sources=2, duration_s=0.005, rng=random.Random(4)),
    "speakers": lambda a, s, d: (D.choose_speakers(libri(s), 2, random.Random(2)), D.cmu_arctic_speakers(), cmu(s).list_speakers(), D.choose_speakers(cmu(s), 3, random.Random(5))),
    "collate": lambda a, s, d: batch(D.collate_dataset_items(a["items"], pad_value=-2.0, keep_metadata=True)),
    "collate plain": lambda a, s, d: batch(D.collate_dataset_items(a["items"][:2])),
    "collate one": lambda a, s, d: [batch(D.collate_dataset_items([x])) for x in a["items"]],
    "collate equal": lambda a, s, d: batch(D.collate_dataset_items([a["items"][0], a["items"][0]])),
    "attribution": lambda a, s, d: (D.attribution_for("librispeech", subset="dev-clean").to_dict(), D.attribution_for("cmu_arctic").to_dict(), D.default_modification_notes(dynamic=True), D.default_modification_notes(dynamic=False), D.attribution_for("cmu_arctic")),
    "save wav": lambda a, s, d: tio.save_wav(d / "o.wav", a["sig"], 8000),
    "save flac": lambda a, s, d: tio.save_audio(d / "o.flac", a["sig"], 8000, normalize=False, subtype="PCM_24"),
    "load": lambda a, s, d: (tio.load_wav(s / "a.wav"), tio.load_audio(s / "b.flac"), str(tio.info_wav(s / "a.wav"))),
    "scene audio": lambda a, s, d: (tio.save_scene_audio(out_dir=d / "n" / "m", audio=a["sig"], fs=8000, audio_name="x.wav", logger=LOG), None)[1],
    "attribution file": lambda a, s, d: (tio.save_attribution_file(out_dir=d, dataset_attribution=D.attribution_for("cmu_arctic"), modifications=a["notes"]), None)[1],
    "metadata": lambda a, s, d: tio.build_metadata(**meta_kw(a)),
    "metadata static": lambda a, s, d: tio.build_metadata(room=a["room"], sources=a["src"], mics=a["mic"], rirs=a["rirs"]),
    "metadata file": lambda a, s, d: tio.save_scene_metadata(out_dir=d / "m", metadata_name="m.json", **meta_kw(a)),
    "arrays": lambda a, s, d: (
        G.linear_array(a["center"], num=4, spacing=0.1, direction=a["size"]), G.circular_array(a["center"], num=5, radius=0.2, normal=a["size"]),
        G.polyhedron_array(a["center"], kind="octahedron"), G.eigenmike_em32(a["center"]), G.eigenmike_em64(a["center"], azimuth_offset_deg=10.0), G.binaural_array(a["center"])),
    "array attributes": lambda a, s, d: tio.build_metadata(room=a["room"], sources=a["src"], mics=MicrophoneArray.circular(a["center"], num=4, radius=0.1), rirs=torch.zeros(2, 4, 5))
    if hasattr(MicrophoneArray, "circular") else None,
    "sampling": lambda a, s, d: (
        G.sample_positions(num=3, room_size=a["size"], rng=random.Random(1)), G.sample_positions_min_distance(num=2, room_size=a["size"], rng=random.Random(3), center=a["center"], min_distance=0.5)),
    "trajectory": lambda a, s, d: (G.linear_trajectory(a["center"], a["size"], 5), G.clamp_positions(a["straj"], a["size"], 0.9)),
    "scenes": lambda a, s, d: (
        [bool(x) for x in (StaticScene(room=a["room"], sources=a["src"], mics=a["mic"]).validate() or 1, DynamicScene(room=a["room"], sources=a["src"], mics=a["mic"], src_traj=a["straj"], mic_traj=a["mtraj"]).validate() or 1)],
        Room.shoebox(size=a["size"], fs=16000, beta=[0.5] * 6).beta, a["room"].replace(fs=4000).fs if hasattr(a["room"], "replace") else None),
    "tensors": lambda a, s, d: (as_tensor([1, 2, 3]), as_tensor(a["size"], dtype=torch.float64), extend_size(a["size"][:2], 3), ensure_dim(a["size"]), orientation_to_unit(a["center"], 3),
                                str(infer_device_dtype([1.0], a["size"].double())), str(resolve_device("cpu"))),
    "config": lambda a, s, d: (repr(torchrir.config.default_config()), repr(torchrir.config.SimulationConfig().replace(seed=4)), repr(torchrir.logging.LoggingConfig().replace(level="DEBUG"))),
    "plot static": lambda a, s, d: artists(viz.plot_scene_static(room=a["size"], sources=a["src"], mics=a["mic"], annotation_lines=a["lines"])),
    "plot dynamic": lambda a, s, d: artists(viz.plot_scene_dynamic(room=a["size"][:2], src_traj=a["straj"][..., :2], mic_traj=a["mtraj"][..., :2])),
    "plot files": lambda a, s, d: (viz.save_scene_plots(out_dir=d, prefix="p", show=False, logger=LOG, plot_3d=False, room=a["size"], sources=a["src"], mics=a["mic"]), None)[1],
    "gif": lambda a, s, d: (viz.animate_scene_gif(out_path=d / "g.gif", room=a["size"][:2], sources=a["src"].positions[:, :2], mics=a["mic"].positions[:, :2], src_traj=a["straj"][:2, :, :2], fps=5), None)[1],
    "builder": lambda a, s, d: B.build(s / "cmu", d / "out", speakers=["bdl", "slt"], **{**B.SMALL, "n_scenes": 1, "n_sources": 2, "n_moving_sources": 1}),
    # failing calls
    "no such file": lambda a, s, d: tio.load_wav(s / "missing.wav"),
    "damaged file": lambda a, s, d: tio.load_wav(s / "bad.wav"),
    "unwritable": lambda a, s, d: tio.save_wav(d / "no" / "dir" / "o.wav", a["sig"], 8000),
    "wrong format": lambda a, s, d: tio.save_wav(d / "o.wav", a["sig"], 8000, format="nonsense"),
    "wrong subtype": lambda a, s, d: tio.save_audio(d / "o.flac", a["sig"], 8000, subtype="FLOAT"),
    "no dataset": lambda a, s, d: D.CmuArcticDataset(s / "none", speaker="bdl", download=False)[0],
    "bad index": lambda a, s, d: cmu(s)[99],
    "mixed rates": lambda a, s, d: D.collate_dataset_items([a["items"][0], D.DatasetItem(audio=torch.zeros(2), sample_rate=16000, utterance_id="z", text=None, speaker=None)]),
    "bad metadata": lambda a, s, d: tio.save_scene_metadata(out_dir=d, metadata_name="m.json", **{**meta_kw(a), "extra": {"x": object()}}),
    "bad attribution": lambda a, s, d: tio.save_attribution_file(out_dir=d, dataset_attribution={"dataset": "x"}, modifications=a["notes"]),
    "bad array": lambda a, s, d: G.circular_array(a["center"], num=4, radius=0.1, plane="ab"),
    "no space left": lambda a, s, d: G.sample_positions(num=1, room_size=a["size"], rng=random.Random(1), margin=2.0),
    "never far enough": lambda a, s, d: G.sample_positions_min_distance(num=1, room_size=a["size"], rng=random.Random(1), center=a["center"], min_distance=50.0, max_attempts=20),
    "bad plot": lambda a, s, d: viz.plot_scene_static(room=a["size"], sources="nonsense", mics=a["mic"]),
    "bad dynamic plot": lambda a, s, d: viz.plot_scene_dynamic(room=a["size"], src_traj=a["straj"], mic_traj=a["mtraj"], step=0),
    "bad frames": lambda a, s, d: viz.animate_scene_gif(out_path=d / "g.gif", room=a["size"], sources=a["src"], mics=a["mic"], src_traj=a["straj"], step=0),
    "bad plot files": lambda a, s, d: viz.render_scene_plots(out_dir=s / "clash", prefix="p", **plot_kw(a)),
    "bad gif": lambda a, s, d: viz.animate_scene_gif(out_path=s / "clash" / "g.gif", room=a["size"][:2], sources=a["src"].positions[:, :2], mics=a["mic"].positions[:, :2], src_traj=a["straj"][..., :2]),
    "bad build": lambda a, s, d: B.build(s / "cmu", d / "out", speakers=["bdl", "xyz"], **{**B.SMALL, "n_scenes": 1, "n_sources": 2}),
    # calls whose purpose is process-wide
    "setup logging": lambda a, s, d: (torchrir.logging.setup_logging(torchrir.logging.LoggingConfig(level="ERROR")), None)[1],
    "set backend": lambda a, s, d: (tio.set_audio_backend("soundfile"), tio.get_audio_backend(), tio.list_audio_backends())[1:],
}
GLOBAL = {"setup logging": ("torchrir logger",), "set backend": ()}
ALIASES = ("tensors", "scenes", "config")  # conversions and containers may hand back what they were given
SLOW = ("plot files", "gif", "builder", "bad frames")  # as second call: only with the first one's results overwritten
PLOTS = ("plot static", "plot dynamic", "plot files", "gif", "bad plot", "bad dynamic plot", "bad frames", "bad plot files", "bad gif")


def cases(tier):
    names = list(OPS)
    for first in names:
        yield dict(k="pairs", first=first)
    if tier != "quick":
        for first, second in itertools.product(names, repeat=2):
            yield dict(k="triples", first=first, second=second)


def process_state() -> dict:
    gc.collect()
    t = torch.random.get_rng_state().numpy().tobytes()
    npst = np.random.get_state()
    lib = logging.getLogger("torchrir")
    fds = []
    for f in os.listdir("/proc/self/fd"):
        try:
            to = os.readlink(f"/proc/self/fd/{f}")
        except OSError:
            continue
        if not to.startswith("/proc/") and not to.endswith((".ttf", ".otf", ".afm")):  # matplotlib keeps font files open
            fds.append((f, to))
    old = os.umask(0)
    os.umask(old)
    return {
        "torch random state": digest(t), "numpy random state": digest((npst[1].tobytes(), npst[2:])), "random state": digest(random.getstate()),
        "default dtype": str(torch.get_default_dtype()), "default device": str(torch.get_default_device()), "gradient mode": torch.is_grad_enabled(), "inference mode": torch.is_inference_mode_enabled(),
        "deterministic": torch.are_deterministic_algorithms_enabled(), "threads of torch": torch.get_num_threads(), "torch print options": repr(vars(torch._tensor_str.PRINT_OPTS)),
        "numpy error handling": dict(np.geterr()), "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)), "warning filters": repr(warnings.filters),
        "environment": dict(os.environ), "working directory": os.getcwd(), "file mode mask": old, "import path": list(sys.path), "recursion limit": sys.getrecursionlimit(),
        "plot settings": rc(), "plot backend": matplotlib.get_backend(), "open figures": plt.get_fignums(), "interactive plots": plt.isinteractive(),
        "root logger": (logging.root.level, [repr(h) for h in logging.root.handlers], logging.root.manager.disable), "torchrir logger": (lib.level, lib.propagate, len(lib.handlers), lib.disabled),
        "loggers of other packages": {n: (x.level, len(x.handlers), x.propagate, x.disabled) for n, x in list(logging.root.manager.loggerDict.items())
                                      if isinstance(x, logging.Logger) and not n.startswith("torchrir") and (x.level, len(x.handlers), x.propagate, x.disabled) != (0, 0, True, False)},
        "signal handlers": [repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD, signal.SIGPIPE)], "locale": locale.setlocale(locale.LC_ALL, None),
        "time zone": time.tzname, "open files": sorted(fds), "running threads": sorted(x.name for x in threading.enumerate()), "exception hook": repr(sys.excepthook), "garbage collection": gc.isenabled(),
        "left in the temporary folder": sorted(os.listdir(tempfile.gettempdir())),
    }


def files(d: Path):
    return {str(p.relative_to(d)): p.read_bytes() if p.is_file() else None for p in sorted(d.rglob("*"))}


def plain(x):
    if torch.is_tensor(x):
        return x.detach().clone()
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if hasattr(x, "__dataclass_fields__"):
        return [plain(getattr(x, f)) for f in x.__dataclass_fields__]
    return x


def close(a, b):
    if torch.is_tensor(a) or isinstance(a, np.ndarray):
        if type(a) is not type(b) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        x, y = np.asarray(a), np.asarray(b)
        if x.dtype.kind == "f":
            return bool(np.allclose(x, y, rtol=0, atol=4 * np.finfo(x.dtype).eps * max(1.0, float(np.abs(y).max(initial=0))), equal_nan=True))
        return bool(np.array_equal(x, y))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(close(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or abs(a - b) <= 1e-12 * max(abs(a), abs(b)) or (a != a and b != b)
    return type(a) is type(b) and a == b


def overwrite(x, seen=None):
    """Everything reachable that can be written in place gets other contents."""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if torch.is_tensor(x):
        with torch.no_grad():
            if x.numel():
                x.fill_(77)
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x[...] = 77
    elif isinstance(x, dict):
        for v in list(x.values()):
            overwrite(v, seen)
        x.clear()
        x["overwritten"] = True
    elif isinstance(x, list):
        for v in x:
            overwrite(v, seen)
        x[:] = ["overwritten"]
    elif isinstance(x, tuple):
        for v in x:
            overwrite(v, seen)
    elif hasattr(x, "__dataclass_fields__"):
        for f in x.__dataclass_fields__:
            overwrite(getattr(x, f), seen)


def call(name, src, d):
    """(inputs, raw result, comparable outcome, files)"""
    d.mkdir(parents=True)
    a = inputs()
    try:
        raw = OPS[name](a, src, d)
        out = ("returned", plain(raw))
    except Exception as exc:  # noqa: BLE001
        raw, out = None, ("raised", type(exc).__name__, str(exc).replace(str(d), "DIR"))
    return a, raw, out, files(d)


def warm(root: Path):
    """Imports, fonts and other one-time set-up of third-party packages, not through the library."""
    try:
        import scienceplots  # noqa: F401
    except ImportError:
        pass
    import matplotlib.animation  # noqa: F401
    from mpl_toolkits.mplot3d import Axes3D  # noqa: F401

    for kw in ({}, {"projection": "3d"}):
        fig = plt.figure()
        ax = fig.add_subplot(**kw)
        ax.plot([0, 1], [0, 1], label="x")
        ax.legend()
        ax.text(0, 0, *([0] if kw else []), "S0")
        fig.savefig(root / "warm.png")
        fig.savefig(root / "warm.gif") if False else None
        plt.close(fig)
    torch.zeros(3).square().sum()
    for n in ("matplotlib", "matplotlib.animation", "matplotlib.pyplot", "matplotlib.font_manager", "PIL", "soundfile", "torch", "urllib3", "asyncio", "scienceplots", "numba"):
        logging.getLogger(n).setLevel(35)  # the user's own choice, to be left alone
    random.seed(1)
    np.random.seed(1)
    torch.manual_seed(1)


_BASE = {}


def base(name, src, root):
    if name not in _BASE:
        def fresh():
            _, _, out, f = call(name, src, root / "work")
            return out, f
        _BASE[name] = in_fork(fresh)
        shutil.rmtree(root / "work", ignore_errors=True)
    return _BASE[name]


def history(seq, src, root, clobber):
    """Run the calls in this process; returns messages."""
    msgs, live, on = [], [], False
    for k, name in enumerate(seq):
        where = " -> ".join(repr(s) for s in seq[: k + 1]) + (" (results overwritten by their owner)" if clobber else "")
        before = process_state()
        d = root / "work"
        a0 = fingerprint(inputs())
        a, raw, out, f = call(name, src, d)
        held = fingerprint(a)
        shutil.rmtree(d, ignore_errors=True)
        after = process_state()
        for key in before:
            if key == "plot settings" and after[key] == _STYLED[0] and name in PLOTS and not on:
                continue  # documented: the default style is applied once per process
            if key not in GLOBAL.get(name, ()) and before[key] != after[key]:
                msgs.append(f"{where}: {key} changed: {brief(before[key], after[key])}")
        if held != a0:
            msgs.append(f"{where}: the call modified what it was given")
        exp_out, exp_f = _BASE[name]
        if not close(out, exp_out):
            msgs.append(f"{where}: the answer is {str(out)[:150]}, a fresh process answers {str(exp_out)[:150]}")
        if f != exp_f:
            msgs.append(f"{where}: wrote other files than a fresh process: {[n for n in sorted(set(f) | set(exp_f)) if f.get(n) != exp_f.get(n)]}")
        for other, snap, o in live:
            if fingerprint(o) != snap:
                msgs.append(f"{where}: changed what {other!r} had returned or been given")
        on = on or (after["plot settings"] == _STYLED[0] != before["plot settings"])
        if clobber:
            if name not in ALIASES:
                overwrite(raw)
                if fingerprint(a) != a0:
                    msgs.append(f"{where}: what it returned shares memory with what it was given")
                keep = fingerprint(raw)
                overwrite(a)
                if fingerprint(raw) != keep:
                    msgs.append(f"{where}: what it returned shares memory with what it was given (dictionaries or lists)")
            overwrite(raw)
            overwrite(a)
            if on:
                matplotlib.rcParams["text.latex.preamble"] = r"\usepackage{bm}"  # the user's choice after the style; no effect without TeX
        live.append((name, fingerprint((raw, a)), (raw, a)))
        if msgs:
            break
    return msgs


def brief(a, b):
    if isinstance(a, dict):
        return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}
    if isinstance(a, (list, tuple)):
        return f"{[x for x in a if x not in b]} -> {[x for x in b if x not in a]}"
    if isinstance(a, str) and len(a) > 200:
        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return f"...{a[max(0, i - 60):i + 60]} -> ...{b[max(0, i - 60):i + 60]}"
    return f"{a} -> {b}"


_READY = []
_STYLED = []


def rc() -> str:
    return repr(sorted(dict.items(matplotlib.rcParams), key=str))


def styled() -> str:
    """Plot settings once the documented default style is on."""
    try:
        import scienceplots  # noqa: F401

        plt.style.use(["science", "grid", "no-latex"])
    except Exception:  # noqa: BLE001
        pass
    return rc()


def _prepare(ctx):
    """Once per worker, which itself never calls the library: data, temporary folder, fresh-process answers."""
    if not _READY:
        root = ctx.scratch / "p32"
        for n in ("src", "tmp"):
            (root / n).mkdir(parents=True)
        os.environ["TMPDIR"] = str(root / "tmp")
        tempfile.tempdir = None
        warnings.simplefilter("ignore")
        logging.disable(logging.CRITICAL)
        source_data(root / "src")
        warm(root)
        for n in OPS:
            base(n, root / "src", root)
        _STYLED.append(in_fork(styled))
        gc.collect()
        gc.freeze()  # later collections look only at what the calls made
        _READY.append(root)
    return _READY[0]


def run(case, ctx):
    root = _prepare(ctx)
    names = list(OPS)
    if case["k"] == "pairs":
        i = names.index(case["first"])
        rest = names[i:] + names[:i]
        seqs = [((case["first"],), False), (tuple(n for n in rest + rest[:1] if n == case["first"] or n not in SLOW), False)]
        seqs += [((case["first"], n), True) for n in names]
    else:
        seqs = [((case["first"], case["second"], n), True) for n in names]
    for seq, c in seqs:
        m = in_fork(history, seq, root / "src", root, c)
        shutil.rmtree(root / "work", ignore_errors=True)
        ctx.count()
        ctx.transitions += len(seq)
        ctx.traces += 1
        ctx.note((seq[-2:], c))
        ctx.state((seq[:-1], c))
        for x in m:
            ctx.fail(x)
        if m:
            return
