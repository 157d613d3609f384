"""P24: dataset builds are reproducible and never lose data; the command line passes everything through."""

import inspect
import itertools
import json
import logging
import math
import os
import random
import shutil
import subprocess
import sys
from pathlib import Path
from unittest import mock

import numpy as np
import torch

from mc import buildlib as B
from mc.core import VERIF
from mc.procstate import in_fork

from torchrir.datasets import build_dynamic_cmu_arctic_dataset
from torchrir.datasets import dynamic_cmu_arctic as builder

ID = "P24"
LEVEL = "model_checking"
TECHNIQUE = "explicit enumeration of all build histories up to a depth on the real builder against a folder model, with golden trees from fresh processes; all pairs of command-line options"
NOTE = (
    "All histories of builds (other seed, more scenes, overwriting or not), refused builds, user files and random-state disturbances up to the depth are executed; after each step the whole "
    "folder tree is compared byte for byte with what a fresh process writes (or with what was there). Every invalid argument is tried on every kind of folder; every pair of command-line options is passed."
)
RULE = (
    "histories over 11 operations to depth 3 (thorough 4); invalid arguments x folder kinds x overwrite; seeds, scene-count prefixes, layout options; command-line options singly and in pairs; processes with different hash seeds, time zones and working folders. "
    "Non-trivial: distinct (history state, tree) and option sets."
)
ASSUMPTIONS = ["infeasible placements are not invalid arguments (P23)", "layout images are compared by presence, audio and JSON files byte for byte", "non-integer counts are outside the documented types"]
CASE_LIMIT = 300
CFG = dict(n_sources=2, n_moving_sources=1, speakers=B.SPEAKERS[:3], duration_sec=0.002, rir_samples=160, trajectory_steps=3)
OPS = {
    "A": dict(seed=1), "B": dict(seed=2), "A!": dict(seed=1, overwrite=True), "B!": dict(seed=2, overwrite=True), "A2!": dict(seed=1, n_scenes=2, overwrite=True),
    "M!": dict(seed=1, n_moving_sources=0, n_sources=1, overwrite=True), "bad!": dict(seed=1, max_order=-1, overwrite=True), "nodata!": dict(seed=1, overwrite=True, speakers=["ksp", "bdl"]),
    "user": None, "noise": None, "wipe": None,
}
HEAD = 3


def cases(tier):
    depth = 3 if tier == "quick" else 4
    for a, b in itertools.product(OPS, repeat=2):
        yield dict(k="hist", prefix=[a, b], depth=depth)
    for i in range(len(BAD)):
        yield dict(k="bad", i=i)
    for i in range(6):
        yield dict(k="prefix", i=i)
    yield dict(k="seeds", n=24 if tier == "quick" else 200)
    for i in range(8):
        yield dict(k="layout", part=i)
    for i in range(len(CLI)):
        yield dict(k="cli", i=i)
    yield dict(k="clidefault")
    for i in range(4):
        yield dict(k="clie2e", i=i)
    for i in range(4):
        yield dict(k="hash", i=i, seeds=4 if tier == "quick" else 24)


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


def fresh(cmu, out, kw):
    """What a fresh process writes for these arguments."""
    B.build(cmu, out, **{**CFG, **kw})
    t = B.tree(out)
    shutil.rmtree(out)
    return t


def tree(p):
    """All files, folders and links below p; None if p does not exist."""
    if not os.path.lexists(p):
        return None
    out = {}
    for q in sorted(p.rglob("*")):
        out[str(q.relative_to(p))] = ("link", os.readlink(q)) if q.is_symlink() else (q.read_bytes() if q.is_file() else "dir")
    return out


def data_only(t):
    return {k: v for k, v in t.items() if k.endswith((".wav", ".json"))}


def norm(t):
    return {k: ("dir" if v is None else v) for k, v in t.items()}


def _hist(case, ctx):
    d = ctx.dir()
    cmu = d / "cmu"
    B.write_cmu(cmu, speakers=B.SPEAKERS[:3], n=2, lens=(50, 30))
    src0 = tree(cmu)
    gold = {o: norm(in_fork(fresh, cmu, d / "gold", {k: v for k, v in kw.items() if k != "overwrite"})) for o, kw in OPS.items() if kw and o not in ("bad!", "nodata!")}
    elsewhere = d / "elsewhere"
    elsewhere.mkdir()
    (elsewhere / "precious.txt").write_text("keep")
    for rest in itertools.product(OPS, repeat=case["depth"] - 2):
        hist = case["prefix"] + list(rest)
        ws = d / "ws"
        ws.mkdir()
        out = ws / "out"
        model = None
        for step, op in enumerate(hist):
            what = f"history {hist[: step + 1]}"
            ctx.count()
            ctx.transitions += 1
            if op == "user":
                out.mkdir(exist_ok=True)
                (out / "notes.txt").write_text("mine")
                (out / "scene_0001").mkdir(exist_ok=True)
                (out / "scene_0001" / "extra.txt").write_text("mine")
                if not os.path.lexists(out / "link"):
                    os.symlink(elsewhere, out / "link")
                model = tree(out)
                continue
            if op == "noise":
                np.random.seed(step)
                random.seed(step * 7 + 1)
                torch.manual_seed(step + 99)
                np.random.rand(5), random.random(), torch.rand(3)
                continue
            if op == "wipe":
                shutil.rmtree(out, ignore_errors=True)
                model = None
                continue
            kw = OPS[op]
            err = None
            try:
                ret = B.build(cmu, out, **{**CFG, **kw})
            except Exception as exc:  # noqa: BLE001
                err = exc
            invalid = op in ("bad!", "nodata!")
            expect_ok = not invalid and (model is None or kw.get("overwrite"))
            if expect_ok:
                if not ctx.check(err is None, f"{what}: refused: {err!r}"):
                    return
                ctx.check(tuple(ret) == (16000, 6), f"{what}: returned {ret}")
                model = gold[op]
            else:
                if not ctx.check(err is not None, f"{what}: accepted, expected a refusal"):
                    return
                if not invalid:
                    ctx.check(isinstance(err, FileExistsError), f"{what}: refused with {err!r} instead of FileExistsError")
            now = tree(out)
            if not ctx.check(now == model, lambda: f"{what}: folder differs from {'a fresh build' if expect_ok else 'what was there'}: {diff(now, model)}"):
                return
            if not ctx.check(tree(cmu) == src0 and sorted(p.name for p in ws.iterdir()) in ([], ["out"]) and (elsewhere / "precious.txt").exists(), f"{what}: touched something else"):
                return
            ctx.state((hist[: step + 1], B.digest_tree(now)))
            ctx.note((op, B.digest_tree(now)))
        ctx.traces += 1
        shutil.rmtree(ws)
    shutil.rmtree(d)


def diff(a, b):
    a, b = a or {}, b or {}
    return {"missing": sorted(set(b) - set(a))[:4], "extra": sorted(set(a) - set(b))[:4], "changed": [k for k in sorted(set(a) & set(b)) if a[k] != b[k]][:4]}


BAD = [
    dict(max_order=-1), dict(n_scenes=0), dict(n_scenes=-1), dict(n_sources=0, n_moving_sources=0), dict(n_sources=-1), dict(n_moving_sources=-1), dict(n_moving_sources=3), dict(n_sources=4),
    dict(trajectory_steps=0), dict(trajectory_steps=-2), dict(duration_sec=0.0), dict(duration_sec=-1.0), dict(duration_sec=1e-6), dict(duration_sec=math.nan), dict(rir_samples=0), dict(rir_samples=-5),
    dict(move_start_ratio=0.7), dict(move_start_ratio=0.65), dict(move_start_ratio=-0.1), dict(move_end_ratio=1.1), dict(move_end_ratio=0.2), dict(moving_speed_min=0.0), dict(moving_speed_min=-1.0),
    dict(moving_speed_min=1.0), dict(moving_speed_max=0.1), dict(moving_speed_max=math.inf), dict(moving_speed_min=math.nan), dict(move_start_ratio=math.nan),
    dict(room_size=(8.0, 6.0)), dict(room_size=(8.0, 6.0, 0.0)), dict(room_size=(8.0, -6.0, 3.0)), dict(room_size=(8.0, 6.0, 3.0, 1.0)), dict(room_size=(math.nan, 6.0, 3.0)),
    dict(mic_center=(4.0, 3.0)), dict(mic_center=(4.0, math.nan, 1.0), randomize_mic_center=False), dict(source_margin=(0.5, 0.5)), dict(source_margin=(0.5, math.nan, 0.3)), dict(source_margin=()),
    dict(rt60=0.0), dict(rt60=-1.0), dict(rt60=math.nan), dict(sound_speed=0.0), dict(sound_speed=-343.0), dict(octa_edge_m=0.0), dict(octa_edge_m=-1.0), dict(octa_edge_m=math.inf), dict(seed=-1),
    dict(speakers=[]), dict(speakers=["bdl"]), dict(speakers=["nobody", "bdl", "slt"]), dict(speakers=["bdl", "slt", "nobody"]), dict(speakers=["bdl", "ksp", "slt"]),
    dict(n_sources=7, speakers=B.SPEAKERS + ["ksp"], _full=True),
    dict(_break="rate"), dict(_break="nowav"), dict(_break="noscript"), dict(_break="empty"), dict(_break="nocmu"), dict(_break="corrupt"), dict(_break="silent"), dict(_break="same"), dict(_break="inside"), dict(_break="deep"),
]


def _bad(case, ctx):
    spec = dict(BAD[case["i"]])
    brk, full = spec.pop("_break", None), spec.pop("_full", False)
    for kind, over in itertools.product(("absent", "empty", "dataset", "user", "file"), (True, False)):
        d = ctx.dir()
        out = d / "out"
        cmu = d / "cmu"
        if brk in ("same", "inside", "deep"):
            if kind == "file":
                shutil.rmtree(d)
                continue
            cmu = {"same": out, "inside": out / "cmu", "deep": out / "a" / "b"}[brk]
        B.write_cmu(cmu, speakers=B.SPEAKERS + ["ksp"] if full else B.SPEAKERS[:3], n=2, lens=(50, 30))
        if kind == "dataset" and brk in ("same", "inside", "deep"):
            B.build(cmu, d / "t", **{**CFG, "seed": 5})
            shutil.copytree(d / "t", out, dirs_exist_ok=True)
            shutil.rmtree(d / "t")
        elif kind == "dataset":
            B.build(cmu, out, **{**CFG, "seed": 5})
        elif kind == "user":
            (out / "sub").mkdir(parents=True, exist_ok=True)
            (out / "sub" / "thesis.txt").write_text("years of work")
        elif kind == "empty":
            out.mkdir(exist_ok=True)
        elif kind == "file":
            out.write_text("not a folder")
        base = cmu / "ARCTIC" / "cmu_us_slt_arctic"
        if brk == "rate":
            import soundfile as sf

            for w in (base / "wav").iterdir():
                sf.write(w, sf.read(w)[0], 8000, subtype="PCM_16")
        elif brk == "nowav":
            for w in (base / "wav").iterdir():
                w.unlink()
        elif brk == "noscript":
            (base / "etc" / "txt.done.data").unlink()
        elif brk == "empty":
            (base / "etc" / "txt.done.data").write_text("")
        elif brk == "nocmu":
            shutil.rmtree(cmu)
        elif brk == "silent":
            import soundfile as sf

            for w in (base / "wav").iterdir():
                sf.write(w, sf.read(w)[0][:0], 16000, subtype="PCM_16")
        elif brk == "corrupt":
            for w in (base / "wav").iterdir():
                w.write_bytes(b"RIFFgarbage")
        ctx.count()
        before = tree(d)
        what = f"{BAD[case['i']]} on {kind} folder, overwrite={over}"
        err = None
        try:
            B.build(cmu, out, **{**CFG, **spec, "overwrite": over})
        except Exception as exc:  # noqa: BLE001
            err = exc
        ctx.check(err is not None, f"{what}: accepted")
        ctx.check(tree(d) == before, lambda: f"{what}: changed the disk although refused ({err!r}): {diff(tree(d), before)}")
        ctx.note((what, type(err).__name__))
        shutil.rmtree(d)


PREFIX = [dict(), dict(n_sources=3, n_moving_sources=2), dict(randomize_mic_center=False), dict(trajectory_steps=1), dict(n_sources=1, n_moving_sources=1, max_order=2), dict(octa_edge_m=0.3, seed=77)]


def _prefix(case, ctx):
    d = ctx.dir()
    B.write_cmu(d / "cmu", speakers=B.SPEAKERS[:3], n=2, lens=(50, 30))
    kw = PREFIX[case["i"]]
    top = 5
    ref = in_fork(fresh, d / "cmu", d / "out", {**kw, "n_scenes": top})
    for n in range(1, top + 1):
        for other in (d / "out", d / "deeper" / "x" / "y"):
            ctx.count()
            B.build(d / "cmu", other, **{**CFG, **kw, "n_scenes": n})
            got = B.tree(other)
            exp = {k: v for k, v in ref.items() if int(k.split("/")[0][-4:]) < n}
            ctx.check(got == exp, lambda: f"{kw}: building {n} scenes differs from the first {n} of {top}: {diff(got, exp)}")
            shutil.rmtree(other)
    scenes = [ref[f"scene_{i:04d}/mixture.wav"] for i in range(top)]
    ctx.check(len(set(scenes)) == top, f"{kw}: scenes repeat")
    # equivalent spellings of the same arguments
    for alt in (dict(speakers=tuple(CFG["speakers"])), dict(room_size=[8.0, 6.0, 3.0]), dict(room_size=np.array([8, 6, 3])), dict(source_margin=np.array([0.5, 0.5, 0.3])), dict(download_cmu=True)):
        ctx.count()
        B.build(d / "cmu", d / "out", **{**CFG, **kw, **alt, "n_scenes": top})
        ctx.check(B.tree(d / "out") == ref, lambda: f"{kw}: {alt} changes the result: {diff(B.tree(d / 'out'), ref)}")
        shutil.rmtree(d / "out")
    ctx.note((str(kw), str(sorted(ref))))
    shutil.rmtree(d)


def _seeds(case, ctx):
    d = ctx.dir()
    B.write_cmu(d / "cmu", speakers=B.SPEAKERS[:3], n=2, lens=(50, 30))
    seen = {}
    big = (65535, 65536, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 2**63, 2**64 + 5)
    for seed in (*range(case["n"]), *big):
        ctx.count()
        B.build(d / "cmu", d / "out", **{**CFG, "seed": seed})
        t = B.tree(d / "out")
        if seed < 4 or seed in big:
            B.build(d / "cmu", d / "out", **{**CFG, "seed": seed, "overwrite": True})
            again = B.tree(d / "out")
            if not ctx.check(again == t, lambda: f"seed {seed}: a second build differs: {diff(again, t)}"):
                return
        for name in ("scene_0000/mixture.wav", "scene_0000/metadata.json"):
            key = (name, t[name])
            ctx.check(key not in seen, f"seeds {seen.get(key)} and {seed} give the same {name}")
            seen[key] = seed
        traj = json.dumps(json.loads(t["scene_0000/metadata.json"])["trajectories"])
        ctx.check(traj not in seen, f"seeds {seen.get(traj)} and {seed} place everything alike")
        seen[traj] = seed
        ctx.note(traj)
        shutil.rmtree(d / "out")
    who = {json.dumps([x["speaker"] for x in json.loads(v)["source_info"]]) for (k, v) in [q for q in seen if isinstance(q, tuple)] if k.endswith("metadata.json")}
    ctx.check(len(who) > 1, "the seed does not influence which speakers are used")
    shutil.rmtree(d)


def _layout(case, ctx):
    d = ctx.dir()
    B.write_cmu(d / "cmu", speakers=B.SPEAKERS[:3], n=2, lens=(50, 30))
    ref = data_only(in_fork(fresh, d / "cmu", d / "out", dict(n_scenes=2)))
    names = ("save_layout_images", "save_layout_images_3d", "annotate_source_indices", "save_layout_mp4", "save_layout_mp4_3d", "layout_video_mux_audio")
    for i, bits in enumerate(itertools.product((False, True), repeat=len(names))):
        if i % 8 != case["part"] or (ctx.tier == "quick" and bits[3] and bits[1]):
            continue
        kw = dict(zip(names, bits))
        if bits[3]:
            kw["layout_video_fps"] = 5.0 if bits[2] else None
        ctx.count()
        B.build(d / "cmu", d / "out", **{**CFG, **kw, "n_scenes": 2})
        got = data_only(B.tree(d / "out"))
        ctx.check(got == ref, lambda: f"layout options {kw} change audio or metadata: {diff(got, ref)}")
        ctx.note(str(kw))
        shutil.rmtree(d / "out")
    shutil.rmtree(d)


# flag, value, parameter, expected
CLI = [
    ("--download-cmu", None, "download_cmu", True), ("--no-download-cmu", None, "download_cmu", False), ("--dataset-root", "some/rel/dir", "dataset_root", Path("some/rel/dir")),
    ("--speakers", "slt clb", "speakers", ["slt", "clb"]), ("--n-scenes", "4", "n_scenes", 4), ("--n-sources", "2", "n_sources", 2), ("--n-moving-sources", "0", "n_moving_sources", 0),
    ("--duration-sec", "1.5", "duration_sec", 1.5), ("--room-size", "7.5,5.5,2.5", "room_size", [7.5, 5.5, 2.5]), ("--mic-center", "1.5, 2.5,0.5", "mic_center", [1.5, 2.5, 0.5]),
    ("--randomize-mic-center", None, "randomize_mic_center", True), ("--no-randomize-mic-center", None, "randomize_mic_center", False), ("--octa-edge-m", "0.25", "octa_edge_m", 0.25),
    ("--source-margin", "0.1,0.2,0.3", "source_margin", [0.1, 0.2, 0.3]), ("--trajectory-steps", "17", "trajectory_steps", 17), ("--rir-samples", "99", "rir_samples", 99), ("--rt60", "0.7", "rt60", 0.7),
    ("--sound-speed", "340.5", "sound_speed", 340.5), ("--max-order", "3", "max_order", 3), ("--seed", "9", "seed", 9), ("--overwrite-dataset", None, "overwrite", True),
    ("--save-layout-images", None, "save_layout_images", True), ("--no-save-layout-images", None, "save_layout_images", False), ("--save-layout-images-3d", None, "save_layout_images_3d", True),
    ("--no-save-layout-images-3d", None, "save_layout_images_3d", False), ("--save-layout-mp4", None, "save_layout_mp4", True), ("--no-save-layout-mp4", None, "save_layout_mp4", False),
    ("--save-layout-mp4-3d", None, "save_layout_mp4_3d", True), ("--no-save-layout-mp4-3d", None, "save_layout_mp4_3d", False), ("--layout-video-fps", "12.5", "layout_video_fps", 12.5),
    ("--layout-video-no-audio", None, "layout_video_mux_audio", False), ("--no-annotate-source-indices", None, "annotate_source_indices", False), ("--log-level", "ERROR", None, None),
]


def argv(opts, root="/some/cmu"):
    out = ["prog", "--cmu-root", root]
    for flag, val, _, _ in opts:
        out += [flag] + (val.split(" ") if flag == "--speakers" else [val] if val is not None else [])
    return out


def call_cli(args):
    """Keyword arguments (bound, with defaults) the command line passes to the build function."""
    got = []
    sig = inspect.signature(build_dynamic_cmu_arctic_dataset)

    def fake(*a, **kw):
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        got.append(dict(b.arguments))
        return 16000, 6

    root = logging.getLogger()
    handlers, level, off = list(root.handlers), root.level, logging.root.manager.disable
    logging.disable(logging.CRITICAL)
    try:
        with mock.patch.object(builder, "build_dynamic_cmu_arctic_dataset", fake), mock.patch.object(sys, "argv", args):
            builder.main()
    finally:
        root.handlers[:] = handlers
        root.setLevel(level)
        logging.disable(off)
    return got


def same(param, a, b):
    if param in ("cmu_root", "dataset_root"):
        return Path(a).expanduser().resolve() == Path(b).expanduser().resolve()
    if param in ("room_size", "mic_center", "source_margin"):
        return np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
    if param == "speakers":
        return list(a) == list(b)
    return type(a) is type(b) and a == b or (isinstance(a, float) and isinstance(b, int) and a == b)


def judge_cli(ctx, opts):
    ctx.count()
    args = argv(opts)
    got = call_cli(args)
    if not ctx.check(len(got) == 1, f"{args}: {len(got)} builds"):
        return
    exp = {n: p.default for n, p in inspect.signature(build_dynamic_cmu_arctic_dataset).parameters.items()}
    exp["cmu_root"] = "/some/cmu"
    for _, _, param, val in opts:
        if param:
            exp[param] = val
    exp.pop("logger", None)
    for k, v in exp.items():
        ctx.check(k in got[0] and same(k, got[0][k], v), f"{args}: {k} is {got[0].get(k)!r}, expected {v!r}")
    ctx.note(args)


def _cli(case, ctx):
    first = CLI[case["i"]]
    judge_cli(ctx, [first])
    for other in CLI[case["i"] + 1 :]:
        if other[2] == first[2] and other[2] is not None:
            continue
        judge_cli(ctx, [first, other])
        judge_cli(ctx, [other, first])


def _clidefault(case, ctx):
    judge_cli(ctx, [])
    judge_cli(ctx, [o for o in CLI if o[0].startswith("--no-") or o[1] is not None or o[0] in ("--overwrite-dataset", "--layout-video-no-audio")])
    for bad in (["prog"], ["prog", "--cmu-root", "x", "--nonsense"], ["prog", "--cmu-root", "x", "--n-scenes", "two"], ["prog", "--cmu-root", "x", "--room-size", "1,2"], ["prog", "--cmu-root", "x", "--mic-center", "a,b,c"], ["prog", "--cmu-root", "x", "--source-margin", "1,2,3,4"]):
        ctx.count()
        got, err = None, None
        try:
            with mock.patch.object(sys, "stderr", open(os.devnull, "w")):
                got = call_cli(bad)
        except (SystemExit, ValueError) as exc:
            err = exc
        ctx.check(err is not None and not got, f"{bad}: accepted")
        ctx.note(bad)


def _clie2e(case, ctx):
    d = ctx.dir()
    B.write_cmu(d / "cmu", speakers=B.SPEAKERS[:4], n=2, lens=(50, 30))
    i = case["i"]
    extra = [
        (["--n-moving-sources", "2", "--room-size", "9,7,3.5", "--seed", "5"], dict(n_moving_sources=2, room_size=(9, 7, 3.5), seed=5)),
        (["--no-randomize-mic-center", "--mic-center", "3.5,3,1.25", "--octa-edge-m", "0.4"], dict(randomize_mic_center=False, mic_center=(3.5, 3, 1.25), octa_edge_m=0.4)),
        (["--source-margin", "0.3,0.4,0.5", "--rt60", "0.5", "--sound-speed", "350", "--n-scenes", "2"], dict(source_margin=(0.3, 0.4, 0.5), rt60=0.5, sound_speed=350.0, n_scenes=2)),
        (["--overwrite-dataset", "--seed", "11"], dict(seed=11)),
    ][i]
    common = ["--cmu-root", str(d / "cmu"), "--dataset-root", str(d / "out"), "--speakers", *B.SPEAKERS[:4], "--n-sources", "2", "--duration-sec", "0.002", "--rir-samples", "160", "--trajectory-steps", "3",
              "--max-order", "1", "--no-save-layout-mp4", "--no-save-layout-images", "--n-scenes", "1", "--log-level", "ERROR"]
    if i == 3:
        (d / "out").mkdir()
        (d / "out" / "old.txt").write_text("old")
    r = subprocess.run([sys.executable, "-m", "torchrir.datasets.dynamic_cmu_arctic", *common, *extra[0]], capture_output=True, text=True, timeout=120)
    if not ctx.check(r.returncode == 0, f"command line failed: {r.stderr[-800:]}"):
        return
    kw = dict(speakers=B.SPEAKERS[:4], n_sources=2, duration_sec=0.002, rir_samples=160, trajectory_steps=3, max_order=1, n_moving_sources=1)
    B.build(d / "cmu", d / "direct", **{**kw, **extra[1]})
    ctx.check(B.tree(d / "out") == B.tree(d / "direct"), lambda: f"command line {extra[0]} builds something else than the call: {diff(B.tree(d / 'out'), B.tree(d / 'direct'))}")
    ctx.note((i, B.digest_tree(B.tree(d / "out"))))
    if i == 0:
        before = tree(d)
        r = subprocess.run([sys.executable, "-m", "torchrir.datasets.dynamic_cmu_arctic", *common], capture_output=True, text=True, timeout=120)
        ctx.check(r.returncode != 0 and tree(d) == before, "command line without --overwrite-dataset replaced an existing dataset")
    shutil.rmtree(d)


def _hash(case, ctx):
    """The process itself (string hashing, environment, working folder) must not enter the result."""
    d = ctx.dir()
    B.write_cmu(d / "cmu", speakers=B.SPEAKERS, n=3, lens=(50, 30, 40))
    kw = [dict(), dict(n_sources=4, n_moving_sources=3), dict(n_sources=3, n_moving_sources=3, n_scenes=2), dict(n_sources=1, n_moving_sources=0, n_scenes=3)][case["i"]]
    kw = {**CFG, "speakers": B.SPEAKERS, "seed": 4, **kw}
    code = f"import sys\nfrom pathlib import Path\nfrom mc import buildlib as B\nB.build(Path(sys.argv[1]), Path(sys.argv[2]), **{kw!r})\n"
    ref = None
    for h in range(case["seeds"]):
        ctx.count()
        cwd = d / f"cwd{h}"
        cwd.mkdir()
        env = {**os.environ, "PYTHONHASHSEED": str(h), "HOME": str(cwd), "TZ": ("UTC", "Asia/Tokyo")[h % 2], "LC_ALL": ("C", "C.UTF-8")[h % 2]}
        r = subprocess.run([sys.executable, "-c", code, str(d / "cmu"), str(d / "out")], capture_output=True, text=True, timeout=120, env=env, cwd=cwd)
        if not ctx.check(r.returncode == 0, f"{kw}, hash seed {h}: build failed: {r.stderr[-600:]}"):
            return
        got = B.tree(d / "out")
        ref = got if ref is None else ref
        ctx.check(got == ref, lambda: f"{kw}: a process with hash seed {h} builds something else: {diff(got, ref)}")
        ctx.check(not list(cwd.rglob("*.wav")) and not list(cwd.rglob("*.json")), f"{kw}: dataset files written to the working folder")
        ctx.transitions += 1
        ctx.note((case["i"], h, B.digest_tree(got)))
        shutil.rmtree(d / "out")
    shutil.rmtree(d)
