"""P33: every import order gives the same full library without side effects; missing extras, placeholders, option helper."""

import argparse
import contextlib
import importlib
import io
import itertools
import logging
import os
import pkgutil
import random
import shutil
import sys
import warnings
from pathlib import Path

import matplotlib
import matplotlib.animation  # noqa: F401
import matplotlib.pyplot as plt
import mpl_toolkits.mplot3d  # noqa: F401
import numpy as np
import PIL.Image  # noqa: F401
import scipy.signal  # noqa: F401
import soundfile  # noqa: F401
import torch
import urllib.request  # noqa: F401

from mc.procstate import in_fork

ID = "P33"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all import orders of the real package in fresh (forked) processes, all sets of missing extras, and all command-line option sequences up to a depth"
NOTE = (
    "Every ordered pair of modules (thorough: ordered triples of packages) is imported first in its own process, followed by the rest; names, identities and process-wide settings are compared. "
    "The option helper is run on every argument sequence to depth 3 against the documented meaning. The real package is the transition system."
)
RULE = (
    "all modules first; all ordered pairs of packages (thorough: of modules, and triples of packages); {nothing, style package, matplotlib, both} missing x module; every placeholder call; "
    "the 16 helper configurations x all argument sequences of length <= 3 over 10 arguments. Non-trivial: distinct (imported set, loaded set) or parse result."
)
ASSUMPTIONS = ["third-party packages are already imported; only what torchrir's own modules do is judged"]

PUBLIC = {
    "torchrir": "DynamicScene Room Source MicrophoneArray Scene StaticScene RIRResult load save",
    "torchrir.datasets": "BaseDataset CmuArcticDataset CmuArcticSentence choose_speakers DatasetItem DatasetAttribution CollateBatch default_modification_notes collate_dataset_items "
    "cmu_arctic_speakers build_dynamic_cmu_arctic_dataset attribution_for SentenceLike load_dataset_sources load save LibriSpeechDataset LibriSpeechSentence",
    "torchrir.experimental": "FDTDSimulator RayTracingSimulator TemplateDataset TemplateSentence",
    "torchrir.geometry": "binaural_array circular_array clamp_positions eigenmike_em32 eigenmike_em64 linear_array linear_trajectory polyhedron_array sample_positions sample_positions_min_distance",
    "torchrir.io": "AudioBackend AudioData AudioInfo build_metadata get_audio_backend info info_audio info_wav list_audio_backends load load_audio load_audio_data load_wav save save_audio "
    "save_audio_data save_metadata_json save_scene_audio save_scene_metadata save_wav set_audio_backend",
    "torchrir.models": "DynamicScene MicrophoneArray Room RIRResult Scene SceneLike StaticScene Source",
    "torchrir.signal": "DynamicConvolver convolve_rir fft_convolve",
    "torchrir.sim": "ISMSimulator RIRSimulator directivity_gain simulate_dynamic_rir simulate_rir split_directivity",
    "torchrir.util": "DeviceSpec add_output_args as_tensor attenuation_db_to_time_sabine ensure_dim estimate_beta_from_t60 estimate_image_counts_from_tmax estimate_t60_from_beta extend_size "
    "infer_device_dtype normalize_orientation orientation_to_unit resolve_device",
    "torchrir.viz": "animate_scene_gif animate_scene_mp4 save_scene_gifs save_scene_layout_images save_scene_videos save_scene_plots plot_scene_dynamic plot_scene_static render_scene_plots",
    "torchrir.config": "SimulationConfig default_config",
    "torchrir.logging": "LoggingConfig get_logger setup_logging",
}
SAME = [("torchrir", "torchrir.models", n) for n in "DynamicScene Room Source MicrophoneArray Scene StaticScene RIRResult".split()]
EXTRAS = (("matplotlib", "mpl_toolkits"), ("scienceplots",), ("matplotlib", "mpl_toolkits", "scienceplots"))


def modules():
    spec = importlib.util.find_spec("torchrir")
    root = list(spec.submodule_search_locations)
    out = ["torchrir"]
    for m in pkgutil.walk_packages(root, "torchrir."):
        out.append(m.name)
    return sorted(out)


def packages():
    return list(PUBLIC)


def cases(tier):
    for m in _walk():
        yield dict(k="first", m=m)
    for a in packages():
        yield dict(k="pairs", a=a, deep=tier != "quick")
    if tier != "quick":
        for a in _walk():
            yield dict(k="mpairs", a=a)
    for i in range(len(EXTRAS)):
        yield dict(k="missing", i=i)
    yield dict(k="placeholders")
    yield dict(k="deprecated")
    for bits in itertools.product((False, True), repeat=4):
        yield dict(k="options", bits=bits, n=3 if tier == "quick" else 4)


def _walk():
    """Module names from the files, without importing anything."""
    spec = importlib.util.find_spec("torchrir")  # does not execute the package
    root = Path(list(spec.submodule_search_locations)[0])
    out = []
    for p in sorted(root.rglob("*.py")):
        parts = ("torchrir",) + p.relative_to(root).with_suffix("").parts
        out.append(".".join(parts[:-1] if parts[-1] == "__init__" else parts))
    return [m for m in out if not m.endswith("__main__")]


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


def settings():
    import signal
    import threading

    lib = logging.getLogger("torchrir")
    return {
        "torch random state": torch.random.get_rng_state().numpy().tobytes(), "numpy random state": np.random.get_state()[1].tobytes(), "random state": random.getstate(),
        "default dtype": torch.get_default_dtype(), "default device": str(torch.get_default_device()), "gradients": torch.is_grad_enabled(), "threads of torch": torch.get_num_threads(),
        "deterministic": torch.are_deterministic_algorithms_enabled(), "matmul precision": torch.get_float32_matmul_precision(), "numpy errors": np.geterr(), "numpy printing": repr(sorted(np.get_printoptions().items(), key=str)),
        "torch printing": repr(vars(torch._tensor_str.PRINT_OPTS)), "warning filters": repr(warnings.filters), "environment": dict(os.environ), "folder": os.getcwd(), "import path": list(sys.path),
        "plot settings": repr(sorted(dict.items(matplotlib.rcParams), key=str)), "plot backend": matplotlib.get_backend(), "figures": plt.get_fignums(), "interactive": plt.isinteractive(),
        "root logger": (logging.root.level, [repr(h) for h in logging.root.handlers], logging.root.manager.disable), "library logger": (lib.level, lib.propagate, [repr(h) for h in lib.handlers]),
        "signals": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)], "threads": sorted(t.name for t in threading.enumerate()), "recursion": sys.getrecursionlimit(),
        "exception hook": repr(sys.excepthook), "url opener": repr(urllib.request._opener),
    }


def order(seq, rest):
    """In a process without torchrir: import seq, then rest; returns (problems, loaded after seq)."""
    bad = []
    assert not any(m.split(".")[0] == "torchrir" for m in sys.modules), "torchrir is loaded already"
    before = settings()
    out, err = io.StringIO(), io.StringIO()
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        warnings.simplefilter("always")
        inside = settings()
        for m in seq:
            try:
                importlib.import_module(m)
            except BaseException as exc:  # noqa: BLE001
                return [f"importing {m} raised {exc!r}"], []
        after_seq = settings()
    loaded = sorted(m for m in sys.modules if m.split(".")[0] == "torchrir")
    for k in inside:
        if inside[k] != after_seq[k]:
            bad.append(f"importing changes {k}: {str(inside[k])[:120]} -> {str(after_seq[k])[:120]}")
    if w:
        bad.append(f"importing warns: {w[0].message}")
    if out.getvalue() or err.getvalue():
        bad.append(f"importing prints {(out.getvalue() + err.getvalue())[:120]!r}")
    for m in rest:
        try:
            importlib.import_module(m)
        except BaseException as exc:  # noqa: BLE001
            return bad + [f"importing {m} afterwards raised {exc!r}"], loaded
    for m in rest:
        got = sys.modules[m]
        for n in PUBLIC.get(m, "").split():
            if not hasattr(got, n):
                bad.append(f"{m} has no {n}")
    for a, b, n in SAME:
        if a in rest and b in rest and getattr(sys.modules[a], n, 1) is not getattr(sys.modules[b], n, 2):
            bad.append(f"{a}.{n} is not {b}.{n}")
    for m in PUBLIC:
        if m not in rest:
            continue
        ns = {}
        exec(f"from {m} import *", ns)  # noqa: S102
        for n in PUBLIC[m].split() if hasattr(sys.modules[m], "__all__") else ():
            if n not in ns or ns[n] is not getattr(sys.modules[m], n, None):
                bad.append(f"from {m} import * does not give {n}")
        for n in getattr(sys.modules[m], "__all__", ()):
            if not hasattr(sys.modules[m], n):
                bad.append(f"{m} lists {n} but does not have it")
    del before
    return bad, loaded


def judge(ctx, seq, rest=None):
    bad, loaded = in_fork(order, list(seq), packages() if rest is None else rest)
    ctx.count()
    ctx.transitions += len(seq)
    ctx.traces += 1
    ctx.state(loaded)
    ctx.note((seq, loaded))
    for b in bad:
        ctx.fail(f"{' then '.join(seq)} in a new process: {b}")


def _first(case, ctx):
    judge(ctx, [case["m"]], packages() + _walk())


def _pairs(case, ctx):
    for b in packages():
        if b != case["a"]:
            judge(ctx, [case["a"], b])
            if case["deep"]:
                for c in packages():
                    if c not in (case["a"], b):
                        judge(ctx, [case["a"], b, c], [])


def _mpairs(case, ctx):
    for b in _walk():
        if b != case["a"]:
            judge(ctx, [case["a"], b], [])


class Block:
    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.names:
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


def _missing(case, ctx):
    """Plotting extras missing: everything else works, and the saving helpers only warn."""
    names = EXTRAS[case["i"]]

    def body(d):
        for m in [m for m in sys.modules if m.split(".")[0] in names]:
            del sys.modules[m]
        sys.meta_path.insert(0, Block(names))
        bad = []
        for m in _walk():
            try:
                importlib.import_module(m)
            except BaseException as exc:  # noqa: BLE001
                return [f"importing {m} raised {exc!r}"]
        from torchrir import MicrophoneArray, Room, Source, viz
        from torchrir.sim import simulate_rir

        room = Room.shoebox(size=[4.0, 3.0, 2.5], fs=8000, beta=[0.5] * 6)
        src, mic = Source.from_positions([[1.0, 1.0, 1.0]]), MicrophoneArray.from_positions([[2.0, 2.0, 1.5]])
        try:
            r = simulate_rir(room=room, sources=src, mics=mic, max_order=1, nsample=200)
            if not bool(torch.isfinite(r).all()) or float(r.abs().sum()) == 0:
                bad.append("simulation gives nothing")
        except Exception as exc:  # noqa: BLE001
            bad.append(f"simulation raised {exc!r}")
        heard = []

        class Ear(logging.Handler):
            def emit(self, record):
                heard.append(record.levelno)

        log = logging.getLogger("mc.p33")
        log.propagate = False
        log.addHandler(Ear())
        log.setLevel(logging.DEBUG)
        traj = torch.tensor([[[1.0, 1.0, 1.0]], [[2.0, 1.5, 1.0]]])
        common = dict(out_dir=d, room=room.size, sources=src, mics=mic, logger=log)
        plots = {
            "save_scene_plots": dict(prefix="p", show=False, src_traj=traj),
            "save_scene_gifs": dict(prefix="g", src_traj=traj, mic_traj=mic.positions.repeat(2, 1, 1), signal_len=100, fs=100, gif_fps=2),
            "save_scene_videos": dict(src_traj=traj, mic_traj=mic.positions.repeat(2, 1, 1), signal_len=100, fs=100) if hasattr(viz, "save_scene_videos") else None,
            "save_scene_layout_images": dict(src_traj=traj),
        }
        import inspect

        for name, kw in plots.items():
            f = getattr(viz, name)
            ok = {k: v for k, v in {**common, **kw}.items() if k in inspect.signature(f).parameters}
            heard.clear()
            try:
                f(**ok)
            except Exception as exc:  # noqa: BLE001
                bad.append(f"{name} raised {exc!r} instead of going on without plots")
                continue
            made = sorted(p.name for p in d.rglob("*") if p.is_file())
            if "matplotlib" in names and not any(lv >= logging.WARNING for lv in heard):
                bad.append(f"{name} skipped its plots in silence")
            if "matplotlib" in names and made:
                bad.append(f"{name} left {made}")
            if "matplotlib" not in names and name in ("save_scene_plots", "save_scene_layout_images") and not made:
                bad.append(f"{name} plots nothing without the style package")
        return bad

    bad = in_fork(body, ctx.dir())
    ctx.count()
    ctx.note(names)
    ctx.state(names)
    for b in bad:
        ctx.fail(f"without {', '.join(names)}: {b}")


def _placeholders(case, ctx):
    def body():
        from torchrir import MicrophoneArray, Room, Source, StaticScene, config, experimental

        bad = []
        room = Room.shoebox(size=[4.0, 3.0, 2.5], fs=8000, beta=[0.5] * 6)
        scene = StaticScene(room=room, sources=Source.from_positions([[1.0, 1, 1]]), mics=MicrophoneArray.from_positions([[2.0, 2, 1]]))
        calls = {
            "RayTracingSimulator": [lambda s: s.simulate(scene), lambda s: s.simulate(scene, config.SimulationConfig())],
            "FDTDSimulator": [lambda s: s.simulate(scene), lambda s: s.simulate(scene, config=config.SimulationConfig())],
            "TemplateDataset": [len, lambda s: s[0], lambda s: s[-1], lambda s: list(s)],
        }
        for name, fs in calls.items():
            for f in fs:
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    obj = getattr(experimental, name)()
                if not any(issubclass(x.category, RuntimeWarning) for x in w):
                    bad.append(f"{name} is created without a warning that it is not implemented")
                elif Path(w[0].filename).parts[-2:-1] == ("experimental",):
                    pass
                try:
                    got = f(obj)
                    bad.append(f"{name} answered {str(got)[:80]}")
                except NotImplementedError:
                    pass
                except Exception as exc:  # noqa: BLE001
                    bad.append(f"{name} raised {exc!r}")
        return bad

    for b in in_fork(body):
        ctx.fail(b)
    ctx.count(8)
    ctx.note("placeholders")


def _deprecated(case, ctx):
    """Deprecated entry points answer like their replacement and announce themselves at the caller's line, every time."""
    d = ctx.dir()

    def body():
        import torchrir
        from torchrir import MicrophoneArray, Room, Scene, Source, io as tio, datasets
        from torchrir.sim import ISMSimulator, simulate_rir

        bad, n = [], 0
        x = torch.linspace(-0.5, 0.9, 30)
        tio.save_wav(d / "a.wav", x, 8000)
        room = Room.shoebox(size=[4.0, 3.0, 2.5], fs=8000, beta=[0.5] * 6)
        src, mic = Source.from_positions([[1.0, 1.0, 1.0]]), MicrophoneArray.from_positions([[2.0, 2.0, 1.5]])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            old = Scene(room=room, sources=src, mics=mic)
        calls = {
            "torchrir.load": (lambda: torchrir.load(d / "a.wav"), lambda: tio.load_wav(d / "a.wav")),
            "torchrir.io.load": (lambda: tio.load(d / "a.wav"), lambda: tio.load_wav(d / "a.wav")),
            "torchrir.io.info": (lambda: tio.info(d / "a.wav"), lambda: tio.info_wav(d / "a.wav")),
            "torchrir.save": (lambda: (torchrir.save(d / "b.wav", x, 8000, normalize=False), (d / "b.wav").read_bytes())[1], lambda: (tio.save_wav(d / "c.wav", x, 8000, normalize=False), (d / "c.wav").read_bytes())[1]),
            "torchrir.io.save": (lambda: (tio.save(d / "b.wav", x, 8000, peak=0.5), (d / "b.wav").read_bytes())[1], lambda: (tio.save_wav(d / "c.wav", x, 8000, peak=0.5), (d / "c.wav").read_bytes())[1]),
            "Scene": (lambda: type(Scene(room=room, sources=src, mics=mic)).__name__, lambda: "Scene"),
            "ISMSimulator with Scene": (lambda: ISMSimulator(max_order=1, nsample=100).simulate(old).rirs, lambda: simulate_rir(room=room, sources=src, mics=mic, max_order=1, nsample=100)),
        }

        def saver(fn, name, audio, kw):
            def go():
                out = d / name
                out.unlink(missing_ok=True)
                try:
                    r = fn(out, audio, 8000, **kw)
                except Exception as exc:  # noqa: BLE001
                    return type(exc).__name__, str(exc)
                return r, out.read_bytes() if out.exists() else None
            return go

        def reader(fn, path, kw):
            def go():
                try:
                    return fn(path, **kw)
                except Exception as exc:  # noqa: BLE001
                    return type(exc).__name__, str(exc)
            return go

        once = {}
        shutil.copyfile(d / "a.wav", d / "noext")
        shutil.copyfile(d / "a.wav", d / "a.wave")
        (d / "bad.wav").write_bytes(b"RIFF")
        tio.save_wav(d / "two.wav", torch.stack([x, 0.5 * x]), 8000)
        for path, be, fm in itertools.product(("a.wav", "two.wav", "a.wave", "noext", "bad.wav", "none.wav", "a.flac"), (None, "soundfile", "other"), (None, "wav", "WAV", "flac")):
            kw = {k: v for k, v in (("backend", be), ("format", fm)) if v is not None}
            for nm, f, g in (("torchrir.load", torchrir.load, tio.load_wav), ("torchrir.io.load", tio.load, tio.load_wav), ("torchrir.io.info", tio.info, tio.info_wav)):
                once[f"{nm}({path}, {kw})"] = (reader(f, d / path, kw), reader(g, d / path, kw))
        for audio, norm, peak, st, be, fm in itertools.product((x, torch.stack([x, 0.5 * x])), (None, True, False), (None, 0.5, 1.5, -1.0), (None, "PCM_24", "FLOAT", "nonsense"), (None, "soundfile", "other"), (None, "wav", "flac")):
            kw = {k: v for k, v in (("normalize", norm), ("peak", peak), ("subtype", st), ("backend", be), ("format", fm)) if v is not None}
            for nm, f in (("torchrir.save", torchrir.save), ("torchrir.io.save", tio.save)):
                once[f"{nm}(audio {list(audio.shape)}, {kw})"] = (saver(f, "s.wav", audio, kw), saver(tio.save_wav, "s.wav", audio, kw))

        def eq(a, b):
            if isinstance(a, tuple):
                return isinstance(b, tuple) and len(a) == len(b) and all(map(eq, a, b))
            return torch.equal(a, b) if torch.is_tensor(a) else a == b

        for name, (f, g) in [*calls.items(), *once.items()]:
            for rep in range(1 if name in once else 3):
                n += 1
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    a = f()
                dep = [m for m in w if issubclass(m.category, DeprecationWarning)]
                if not dep:
                    bad.append(f"{name}, call {rep + 1}: no deprecation warning")
                elif name not in once and name != "ISMSimulator with Scene" and name != "Scene" and dep[0].filename != __file__:
                    bad.append(f"{name}: the deprecation warning points to {dep[0].filename}, not to the caller")
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    if not eq(a, g()):
                        bad.append(f"{name} answers something else than its replacement")
        return bad, n

    bad, n = in_fork(body)
    ctx.count(n)
    ctx.note(n)
    for b in bad:
        ctx.fail(b)


ARGS = ("--out-dir X", "--out-dir=y/z", "--plot", "--no-plot", "--show", "--gif", "--gif-fps 7", "--gif-fps=0", "--nonsense", "stray")


def expected(plot_default, plot, show, gif, default, args):
    """The documented meaning, or None when the parser must refuse."""
    ns = {"out_dir": Path(default)}
    if plot:
        ns["plot"] = plot_default
    if show:
        ns["show"] = False
    if gif:
        ns.update(gif=False, gif_fps=-1)
    for a in args:
        flag, _, val = a.replace(" ", "=").partition("=")
        if flag == "--out-dir":
            ns["out_dir"] = Path(val)
        elif flag == "--plot" and plot:
            ns["plot"] = True
        elif flag == "--no-plot" and plot and plot_default:
            ns["plot"] = False
        elif flag == "--show" and show:
            ns["show"] = True
        elif flag == "--gif" and gif:
            ns["gif"] = True
        elif flag == "--gif-fps" and gif:
            ns["gif_fps"] = int(val)
        else:
            return None
    return ns


def _options(case, ctx):
    from torchrir.util import add_output_args

    plot_default, plot, show, gif = case["bits"]
    for default in ("outputs", Path("some/where")):
        def parser():
            p = argparse.ArgumentParser(prog="x", allow_abbrev=False)
            add_output_args(p, out_dir_default=default, plot_default=plot_default, include_plot=plot, include_show=show, include_gif=gif)
            return p
        p = parser()
        for n in range(case["n"] + 1 if default == "outputs" else 2):
            for seq in itertools.product(ARGS, repeat=n):
                exp = expected(plot_default, plot, show, gif, default, seq)
                argv = [x for a in seq for x in a.split(" ")]
                try:
                    with contextlib.redirect_stderr(io.StringIO()):
                        got = vars(p.parse_args(argv))
                except SystemExit:
                    got = None
                ctx.count()
                ctx.transitions += n
                if not ctx.check(got == exp, f"options plot_default={plot_default} plot={plot} show={show} gif={gif}, arguments {argv}: {got}, expected {exp}"):
                    return
                ctx.note((case["bits"], str(got)))
        ctx.state((case["bits"], str(default)))
        # plain defaults of the helper itself
    q = argparse.ArgumentParser(prog="x")
    add_output_args(q, out_dir_default="o")
    ctx.check(vars(q.parse_args([])) == {"out_dir": Path("o"), "plot": False, "show": False}, f"default options are {vars(q.parse_args([]))}")
    q.add_argument("--mine", default=3)
    ctx.check(q.parse_args(["--mine", "4", "--plot"]).mine == "4", "the caller's own options are lost")
