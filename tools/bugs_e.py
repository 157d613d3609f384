"""Planted bugs, part e: independence of helper calls (P32), public surface (P33), and later additions elsewhere."""
BUGS = []


def B(id, prop, file, edits, needs, breaks, demo):
    if not isinstance(edits, dict):
        edits = {file: edits}
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


HEAD = """import atexit, io, json, logging, os, shutil, subprocess, sys, tempfile, warnings
from pathlib import Path


def die(msg):
    print(msg)
    sys.exit(1)


tmp = Path(tempfile.mkdtemp(prefix="demo-"))
atexit.register(shutil.rmtree, tmp, True)
"""
AGG = HEAD + """
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import torch
logging.disable(logging.CRITICAL)
"""

# ---------------------------------------------------------------- P32
B("p32-style-every-plot", "P32", "viz/utils.py",
  [("    if _MPL_DEFAULT_STYLE_APPLIED:\n        return\n", "    if _MPL_DEFAULT_STYLE_APPLIED and plt_has_figures():\n        return\n"),
   ("_F = TypeVar(\"_F\", bound=Callable[..., Any])\n", "_F = TypeVar(\"_F\", bound=Callable[..., Any])\n\n\ndef plt_has_figures() -> bool:\n    import matplotlib.pyplot as plt\n\n    return bool(plt.get_fignums())\n")],
  "a first plot, then the user's own matplotlib settings with every figure closed, then another plot",
  "The default style is applied again whenever no figure is open, overwriting settings the user made after the first plot.",
  AGG + """
from torchrir.viz import plot_scene_static
kw = dict(room=[4., 3., 2.5], sources=torch.tensor([[1., 1., 1.]]), mics=torch.tensor([[2., 2., 1.]]))
plot_scene_static(**kw)
plt.close("all")
matplotlib.rcParams["lines.linewidth"] = 7.25
matplotlib.rcParams["axes.grid"] = False
plot_scene_static(**kw)
if matplotlib.rcParams["lines.linewidth"] != 7.25 or matplotlib.rcParams["axes.grid"]:
    die("a second plot reset the user's plot settings")
""")

B("p32-notes-shared", "P32", "datasets/attribution.py",
  [("    return notes\n", "    return _DEFAULT_NOTES.setdefault(dynamic, notes)\n"),
   ("def default_modification_notes(", "_DEFAULT_NOTES: dict[bool, list[str]] = {}\n\n\ndef default_modification_notes(")],
  "a caller adds a note of its own to the returned list, and another output asks for the default notes later",
  "The returned notes are one shared list, so notes a caller appends appear in every later notice.",
  HEAD + """
from torchrir.datasets import default_modification_notes
first = default_modification_notes(dynamic=True)
want = list(first)
first.append("Speech was low-passed.")
if default_modification_notes(dynamic=True) != want:
    die(f"later notes: {default_modification_notes(dynamic=True)}")
""")

B("p32-speakers-shared", "P32", "datasets/cmu_arctic.py",
  [("    return sorted(VALID_SPEAKERS)\n", "    return _SPEAKER_LIST\n"),
   ("logger = logging.getLogger(__name__)\n", "_SPEAKER_LIST = sorted(VALID_SPEAKERS)\n\nlogger = logging.getLogger(__name__)\n")],
  "a caller shuffles or filters the returned speaker list, and the list is asked for again",
  "The speaker list is one shared object, so shuffling it changes which speakers a later seeded draw gives.",
  HEAD + """
from torchrir.datasets import cmu_arctic_speakers
a = cmu_arctic_speakers()
want = list(a)
a.reverse()
del a[3:]
if cmu_arctic_speakers() != want:
    die(f"speakers now {cmu_arctic_speakers()}")
""")

B("p32-warning-filter-left", "P32", "io/audio.py",
  [("    if audio_t.shape[1] > 1:\n        warnings.warn(", "    if audio_t.shape[-1] != 1:\n        warnings.filterwarnings(\"always\", category=RuntimeWarning, message=\".*channels\")\n        warnings.warn(")],
  "a file with more than one channel is read in a process that looks at its warning filters afterwards (or turned warnings into errors)",
  "Reading a multi-channel file installs a process-wide warning filter that overrides the user's.",
  HEAD + """
import numpy as np, soundfile as sf
from torchrir.io import load_wav
sf.write(tmp / "a.wav", np.zeros((20, 2)), 8000)
warnings.simplefilter("ignore")
before = list(warnings.filters)
load_wav(tmp / "a.wav")
if list(warnings.filters) != before:
    die(f"warning filters now {warnings.filters[:2]}")
""")

B("p32-collate-view", "P32", "datasets/collate.py",
  [("    for idx, item in enumerate(batch):\n        audio[idx, : item.audio.numel()] = item.audio\n",
    "    if len(batch) == 1:\n        audio = batch[0].audio.reshape(1, -1)\n    for idx, item in enumerate(batch[1:] if len(batch) > 1 else []):\n        audio[idx + 1, : item.audio.numel()] = item.audio\n    if len(batch) > 1:\n        audio[0, : batch[0].audio.numel()] = batch[0].audio\n")],
  "a batch of a single item whose padded audio is changed in place (gain, augmentation) while the item is used again",
  "A batch of one shares memory with its item, so an in-place change of the batch changes the item.",
  HEAD + """
import torch
from torchrir.datasets import DatasetItem, collate_dataset_items
item = DatasetItem(audio=torch.arange(5.), sample_rate=8000, utterance_id="u")
b = collate_dataset_items([item])
b.audio.mul_(0.5)
if not torch.equal(collate_dataset_items([item]).audio, torch.arange(5.)[None]):
    die("changing a batch changed the item it came from")
""")

B("p32-extra-in-place", "P32", "io/metadata.py",
  [("    if isinstance(value, dict):\n        return {k: _to_serializable(v) for k, v in value.items()}\n",
    "    if isinstance(value, dict):\n        for k in value:\n            value[k] = _to_serializable(value[k])\n        return value\n")],
  "extra metadata or source info given as a dictionary that the caller keeps using",
  "Building metadata converts the caller's dictionary in place (tensors become lists) and the metadata shares it.",
  HEAD + """
import torch
from torchrir import MicrophoneArray, Room, Source
from torchrir.io import build_metadata
extra = {"gain": torch.tensor([1., 2.]), "n": {"x": (1, 2)}}
build_metadata(room=Room.shoebox(size=[4., 3., 2.], fs=8000, beta=[.5] * 6), sources=Source.from_positions([[1., 1., 1.]]), mics=MicrophoneArray.from_positions([[2., 1., 1.]]),
               rirs=torch.zeros(1, 1, 4), extra=extra)
if not torch.is_tensor(extra["gain"]) or extra["n"]["x"] != (1, 2):
    die(f"the caller's extra is now {extra}")
""")

B("p32-mpl-logger-level", "P32", "viz/animation.py",
  [("    \"\"\"Render a GIF showing source/mic trajectories.\"\"\"\n", "    \"\"\"Render a GIF showing source/mic trajectories, without matplotlib's progress notes.\"\"\"\n    logging.getLogger(\"matplotlib.animation\").setLevel(logging.WARNING)\n")],
  "a GIF is made in a process that configured matplotlib's loggers itself",
  "Making a GIF leaves matplotlib's animation logger at another level.",
  AGG + """
from torchrir.viz import animate_scene_gif
logging.disable(logging.NOTSET)
lg = logging.getLogger("matplotlib.animation")
lg.setLevel(logging.ERROR)
t = torch.rand(3, 1, 3)
animate_scene_gif(out_path=tmp / "a.gif", room=[4., 3., 2.5], sources=t[0], mics=t[0] + 1, src_traj=t, mic_traj=t + 1, fps=5)
if lg.level != logging.ERROR:
    die(f"level now {lg.level}")
""")



# ---------------------------------------------------------------- P33
B("p33-star-misses-info-wav", "P33", "io/__init__.py",
  [("    \"info_audio\",\n    \"info_wav\",\n    \"list_audio_backends\",", "    \"info_audio\",\n    \"list_audio_backends\",")],
  "star import of torchrir.io",
  "info_wav is documented and importable by name but missing from the export list.",
  HEAD + """
ns = {}
exec("from torchrir.io import *", ns)
if "info_wav" not in ns:
    die("star import does not give info_wav")
""")

B("p33-deprecated-once", "P33", "io/__init__.py",
  [("    warnings.warn(\n        \"torchrir.io.save is deprecated. Use torchrir.io.save_wav or torchrir.io.save_audio.\",\n        DeprecationWarning,\n        stacklevel=2,\n    )\n",
    "    global _SAVE_WARNED\n    if not _SAVE_WARNED:\n        _SAVE_WARNED = True\n        warnings.warn(\n            \"torchrir.io.save is deprecated. Use torchrir.io.save_wav or torchrir.io.save_audio.\",\n            DeprecationWarning,\n            stacklevel=2,\n        )\n"),
   ("_DEFAULT_AUDIO_BACKEND = \"soundfile\"\n", "_DEFAULT_AUDIO_BACKEND = \"soundfile\"\n_SAVE_WARNED = False\n")],
  "the deprecated saver called a second time, from another place",
  "Only the first call of torchrir.io.save in the process announces the deprecation.",
  HEAD + """
import torch, torchrir.io as I
n = []
for i in range(2):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        I.save(tmp / "a.wav", torch.rand(9), 8000)
    n.append(sum(x.category is DeprecationWarning for x in w))
if n != [1, 1]:
    die(f"deprecation warnings per call: {n}")
""")

B("p33-load-warns-inside", "P33", "__init__.py",
  [("        \"torchrir.load is deprecated. Use torchrir.io.load_wav or torchrir.io.load_audio.\",\n        DeprecationWarning,\n        stacklevel=2,", "        \"torchrir.load is deprecated. Use torchrir.io.load_wav or torchrir.io.load_audio.\",\n        DeprecationWarning,\n        stacklevel=1,")],
  "looking at where the warning of the top-level loader points (default filters hide it then)",
  "The deprecation warning of torchrir.load points into the library, so with Python's default filters a script never sees it.",
  HEAD + """
import numpy as np, soundfile as sf, torchrir
sf.write(tmp / "a.wav", np.zeros(9), 8000)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    torchrir.load(tmp / "a.wav")
if [x.filename for x in w if x.category is DeprecationWarning] != [__file__]:
    die(f"announced at {[x.filename for x in w]}")
""")

B("p33-save-peak-dropped", "P33", "__init__.py",
  [("        normalize=normalize,\n        peak=peak,\n        subtype=subtype,\n", "        normalize=normalize,\n        peak=peak if normalize and subtype is None else 1.0,\n        subtype=subtype,\n")],
  "the deprecated top-level saver with both a peak and a subtype",
  "torchrir.save ignores the peak when a subtype is given.",
  HEAD + """
import numpy as np, soundfile as sf, torch, torchrir, torchrir.io as I
warnings.simplefilter("ignore")
x = torch.tensor([.1, -.4, .2])
torchrir.save(tmp / "a.wav", x, 8000, peak=.5, subtype="FLOAT")
I.save_wav(tmp / "b.wav", x, 8000, peak=.5, subtype="FLOAT")
if not np.array_equal(sf.read(tmp / "a.wav")[0], sf.read(tmp / "b.wav")[0]):
    die("torchrir.save wrote something else than save_wav")
""")

B("p33-agg-on-import", "P33", "viz/animation.py",
  [("import numpy as np\nimport soundfile as sf\nimport torch\n", "import numpy as np\nimport torch\nimport soundfile as sf\n\ntry:\n    import matplotlib\n\n    matplotlib.use(\"Agg\", force=False)\nexcept Exception:\n    pass\n")],
  "the package is imported in an interactive session whose matplotlib backend is another one",
  "Importing torchrir.viz switches matplotlib's backend.",
  HEAD + """
import matplotlib
matplotlib.use("svg")
import torchrir.viz
if matplotlib.get_backend().lower() != "svg":
    die(f"backend now {matplotlib.get_backend()}")
""")

B("p33-basicconfig-on-import", "P33", "datasets/dynamic_cmu_arctic.py",
  [("LOGGER = logging.getLogger(__name__)\n", "logging.basicConfig(format=\"%(levelname)s: %(message)s\")\nLOGGER = logging.getLogger(\"torchrir.datasets.dynamic_cmu_arctic\")\n")],
  "importing the datasets package before the application configures logging",
  "Importing torchrir.datasets installs a handler on the root logger, so the application's own basicConfig has no effect.",
  HEAD + """
before = list(logging.getLogger().handlers)
import torchrir.datasets.dynamic_cmu_arctic
if logging.getLogger().handlers != before:
    die("the import configured the root logger")
""")

B("p33-needs-scienceplots", "P33", "viz/utils.py",
  [("    try:\n        import matplotlib.pyplot as plt\n        import scienceplots  # noqa: F401\n    except Exception:\n        return\n", "    try:\n        import matplotlib.pyplot as plt\n    except Exception:\n        return\n    import scienceplots  # noqa: F401\n")],
  "scienceplots missing while matplotlib is there",
  "Plots raise when the optional style package is missing.",
  AGG + """
sys.modules["scienceplots"] = None
from torchrir.viz import plot_scene_static
try:
    plot_scene_static(room=[4., 3.], sources=torch.tensor([[1., 1.]]), mics=torch.tensor([[2., 2.]]))
except ImportError as e:
    die(f"plot raised {e!r}")
""")

B("p33-gif-fps-floor", "P33", "util/cli.py",
  [("            \"--gif-fps\",\n            type=int,\n", "            \"--gif-fps\",\n            type=lambda s: int(s) or 1,\n")],
  "--gif-fps 0",
  "'--gif-fps 0' gives 1 frame per second instead of the automatic rate.",
  HEAD + """
import argparse
from torchrir.util import add_output_args
p = argparse.ArgumentParser()
add_output_args(p, out_dir_default="o", include_gif=True)
if p.parse_args(["--gif-fps", "0"]).gif_fps > 0:
    die("--gif-fps 0 is no longer automatic")
""")

B("p33-plot-exclusive", "P33", "util/cli.py",
  [("            parser.add_argument(\n                \"--no-plot\",\n                action=\"store_false\",\n                dest=\"plot\",\n", "            parser.add_argument(\n                \"--no-plot\",\n                action=\"store_const\",\n                const=False,\n                default=argparse.SUPPRESS,\n                dest=\"plot_off\",\n")],
  "--no-plot in a program whose plots are on by default",
  "--no-plot parses but leaves args.plot set.",
  HEAD + """
import argparse
from torchrir.util import add_output_args
p = argparse.ArgumentParser()
add_output_args(p, out_dir_default="o", plot_default=True)
if p.parse_args(["--no-plot"]).plot is not False:
    die("--no-plot leaves plots on")
""")

B("p33-template-len", "P33", "experimental/datasets.py",
  [("    def __len__(self) -> int:\n        raise NotImplementedError(\"TemplateDataset is not implemented yet\")\n", "    def __len__(self) -> int:\n        return 0\n")],
  "asking an unwritten dataset for its length (a DataLoader does)",
  "TemplateDataset reports an empty dataset instead of refusing, so a training loop silently does nothing.",
  HEAD + """
warnings.simplefilter("ignore")
import torchrir.experimental as E
try:
    n = len(E.TemplateDataset())
except NotImplementedError:
    pass
else:
    die(f"placeholder dataset has length {n}")
""")
