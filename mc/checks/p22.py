"""P22: the audio of built scenes, rebuilt from the metadata and the source utterances."""

import itertools
import shutil

import numpy as np
import soundfile as sf
import torch

from mc import buildlib as B
from mc.checks.p11 import direct, starts_default
from mc.core import explore

from torchrir import Room
from torchrir.sim import simulate_dynamic_rir

ID = "P22"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of builder configurations and stubbed generator answers on the real builder, rebuilding every stem from metadata"
NOTE = (
    "Every combination of source, moving, step and scene counts, loudness and generator answers in the bound is built; each stem is compared with the reported utterances filtered "
    "along the reported trajectories by schoolbook segment convolution, one gain is fitted for the whole scene, and the mixture with the sum of stems."
)
RULE = (
    "sources 1..6 x moving counts x steps {1,2,5,8} x loudness {silent, quiet, loud, loud-but-unclipped stems with clipping sum, mixed} x microphones fixed/random x seeds; utterance lengths around 1..3 parts of the duration (also empty ones), all speaker/utterance draws of a stub; "
    "layout options. Non-trivial: distinct (configuration, scene audio)."
)
ASSUMPTIONS = ["16-bit PCM output: two quantisation steps per sample", "at least ten response samples (the high-pass filter refuses fewer)", "response simulation itself is judged by P01-P09"]
CASE_LIMIT = 200


def cases(tier):
    for n, steps in itertools.product((1, 2, 3, 6), (1, 2, 5, 8)):
        for moving in sorted({0, 1, n}):
            yield dict(k="cfg", n=n, moving=moving, steps=steps)
    if tier != "quick":
        for n in (4, 5):
            for moving in range(n + 1):
                yield dict(k="cfg", n=n, moving=moving, steps=5)
    for lev in range(len(LEVELS)):
        for n in (1, 2, 3):
            yield dict(k="loud", n=n, level=lev)
    for parts, off in itertools.product((1, 2, 3), (-2, -1, 0, 1)):
        yield dict(k="lens", parts=parts, off=off)
    yield dict(k="draws", n=1)
    yield dict(k="draws", n=2)
    for room in range(len(ROOMS)):
        yield dict(k="rooms", room=room)
    for mask in range(8):
        yield dict(k="layout", mask=mask)
    for length in (*range(1, 9), 17):
        yield dict(k="short", length=length)
    for kind in ("sources", "steps", "scenes", "long"):
        yield dict(k="large", kind=kind)


LEVELS = [0.0, 0.02, 0.3, 1.0, [1.0, 0.0, 0.01], [0.0, 1.0]]
ROOMS = [
    dict(room_size=(8.0, 6.0, 3.0), rt60=0.3), dict(room_size=(10.0, 9.0, 4.0), rt60=0.6), dict(room_size=(6.5, 9.0, 2.8), rt60=0.2, sound_speed=340.0),
    dict(room_size=(8.0, 6.0, 3.0), mic_center=(4.2, 3.1, 1.2), randomize_mic_center=False), dict(octa_edge_m=0.2), dict(octa_edge_m=0.05, max_order=3, rir_samples=400),
    dict(source_margin=(0.2, 0.3, 0.1)), dict(move_start_ratio=0.0, move_end_ratio=1.0), dict(move_start_ratio=0.1, move_end_ratio=0.2, moving_speed_min=100.0, moving_speed_max=300.0),
    dict(duration_sec=0.0123), dict(duration_sec=0.03), dict(move_start_ratio=0.1, move_end_ratio=0.9), dict(move_start_ratio=0.0, move_end_ratio=0.7), dict(move_start_ratio=0.6, move_end_ratio=1.0),
]


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


def rebuild(meta, info, data, args, fs):
    """Expected (sources, samples, mics) before the common gain."""
    size = meta["room"]["size"]
    room = Room.shoebox(size=size, fs=meta["room"]["fs"], c=meta["room"]["c"], t60=meta["room"]["t60"], dtype=torch.float64)
    t = meta["trajectories"]
    src = t["sources"] if meta["dynamic"] else [meta["sources"]["positions"]]
    mic = t["mics"] if meta["dynamic"] else [meta["mics"]["positions"]]
    src, mic = torch.tensor(src, dtype=torch.float64), torch.tensor(mic, dtype=torch.float64)
    h = simulate_dynamic_rir(room=room, src_traj=src, mic_traj=mic, max_order=args["max_order"], nsample=args["rir_samples"]).double().numpy()
    target = int(args["duration_sec"] * fs)
    outs = []
    for i, item in enumerate(info):
        x = np.concatenate([data[item["speaker"]][u] for u in item["utterance_ids"]]).astype(np.float64)[:target] / 32768
        alts = [direct(x[None], h[:, i : i + 1], st).T for st in starts_default(target, h.shape[0])]
        outs.append(alts)
    return outs, target


def judge(ctx, what, folder, data, args, n_sources, fs=16000, files=()):
    ctx.count()
    want_files = {"mixture.wav", "metadata.json", "source_info.json", *(f"source_{i:02d}.wav" for i in range(n_sources)), *files}
    have = {p.name for p in folder.iterdir()}
    if not ctx.check(have == want_files, f"{what}: files {sorted(have)}, expected {sorted(want_files)}"):
        return False
    meta, info = B.scene(folder)
    target = int(args["duration_sec"] * fs)
    length = target + args["rir_samples"] - 1
    audio = {}
    for name in ["mixture.wav"] + [f"source_{i:02d}.wav" for i in range(n_sources)]:
        x, rate = sf.read(folder / name, always_2d=True)
        if not ctx.check(rate == fs and x.shape == (length, 6), f"{what}: {name} has shape {x.shape} at {rate} Hz, expected ({length}, 6) at {fs}"):
            return False
        audio[name] = x
    stems = np.stack([audio[f"source_{i:02d}.wav"] for i in range(n_sources)])
    mix = audio["mixture.wav"]
    lsb = 1 / 32768
    err = np.abs(mix - stems.sum(0)).max()
    if not ctx.check(err <= (n_sources + 1.5) * lsb, f"{what}: mixture differs from the sum of its stems by {err / lsb:.1f} steps"):
        return False
    if not ctx.check(np.abs(mix).max() < 1 - lsb and np.abs(stems).max() < 1 - lsb, f"{what}: audio reaches full scale (clipped)"):
        return False
    # metadata and source info
    ok = len(info) == n_sources == meta["extra"]["n_sources"] and meta["source_info"] == info and meta["rirs_shape"][1:] == [n_sources, 6, args["rir_samples"]]
    ok = ok and meta["room"]["fs"] == fs and len(meta["sources"]["positions"]) == n_sources and len(meta["mics"]["positions"]) == 6
    if not ctx.check(ok, f"{what}: metadata and source info disagree or do not fit: {info} / {meta.get('source_info')}"):
        return False
    spk = [x["speaker"] for x in info]
    ex = meta["extra"]
    ok = len(set(spk)) == n_sources and [x["source_index"] for x in info] == list(range(n_sources))
    ok = ok and [i for i, x in enumerate(info) if x["is_moving"]] == sorted(ex["moving_source_indices"])
    ok = ok and all((x["motion_type"] == "arc") == x["is_moving"] for x in info)
    ok = ok and [x["velocity_mps"] for x in info] == ex["source_velocity_mps"] and [x["angular_velocity_rad_s"] for x in info] == ex["angular_velocity_rad_s"]
    ok = ok and [x["turn_direction"] for x in info] == ex["turn_direction"]
    ok = ok and all(x["move_start_sec"] == ex["motion_time_sec"]["move_start"] and x["move_end_sec"] == ex["motion_time_sec"]["move_end"] for x in info)
    a, b, dur = args.get("move_start_ratio", 0.35), args.get("move_end_ratio", 0.65), args["duration_sec"]
    ok = ok and all(abs(x["move_start_sec"] - a * dur) < 1e-12 and abs(x["move_end_sec"] - b * dur) < 1e-12 for x in info)
    if not ctx.check(ok, f"{what}: source entries inconsistent: {info} against {ex}"):
        return False
    for x in info:
        ids = x["utterance_ids"]
        tot = [len(data[x["speaker"]][u]) for u in ids]
        if not ctx.check(sum(tot) >= target and sum(tot[:-1]) < target, f"{what}: {ids} do not make up {target} samples"):
            return False
    # the audio itself, up to one gain
    exp, _ = rebuild(meta, info, data, args, fs)
    for alt in range(max(len(e) for e in exp)):
        e = np.stack([a[min(alt, len(a) - 1)] for a in exp])
        den = float((e * e).sum())
        gain = float((e * stems).sum()) / den if den > 0 else 1.0
        resid = np.abs(stems - gain * e).max()
        if resid <= 2.5 * lsb and gain > 0:
            break
    else:
        per = [float((e[i] * stems[i]).sum() / max((e[i] ** 2).sum(), 1e-30)) for i in range(n_sources)]
        return ctx.fail(f"{what}: stems are not the reported utterances along the reported trajectories with one gain (residual {resid / lsb:.1f} steps, gain {gain:.4f}, per source {per})")
    if den > 0 and np.abs(e).max() > 1e-3:
        ctx.check(gain > 0.02, f"{what}: common gain {gain}")
    ctx.note((what, stems.tobytes()[:4000], mix.tobytes()[:2000]))
    return True


def _one(ctx, what, n, moving, level=0.1, files=(), seeds=(42,), scenes=1, ch=None, pybound=0, lens=(70, 45, 90), **kw):
    d = ctx.dir()
    data = B.write_cmu(d / "cmu", level=level, n=len(lens), lens=lens)
    ok = True
    for seed in seeds:
        args = {**B.SMALL, "n_sources": n, "n_moving_sources": moving, "seed": seed, "n_scenes": scenes, **kw}
        out = d / "out"
        fs, mics = B.build(d / "cmu", out, ch=ch, bound=0 if pybound else 99, pybound=pybound, quant=(0.5, 0.0, B.HI), **args)
        ctx.check((fs, mics) == (16000, 6), f"{what}: returned {(fs, mics)}")
        names = sorted(p.name for p in out.iterdir())
        ok = ctx.check(names == [f"scene_{i:04d}" for i in range(scenes)], f"{what}: dataset folder holds {names}") and ok
        for i in range(scenes):
            ok = ok and judge(ctx, f"{what} seed {seed} scene {i}", out / f"scene_{i:04d}", data, args, n, files=files)
        shutil.rmtree(out)
        if not ok:
            break
    shutil.rmtree(d)
    return ok


def _cfg(case, ctx):
    n, m, t = case["n"], case["moving"], case["steps"]
    seeds = (42, 7) if ctx.tier == "quick" else range(12)
    _one(ctx, f"{n} sources {m} moving {t} steps", n, m, seeds=seeds, scenes=2, trajectory_steps=t, moving_speed_min=200.0, moving_speed_max=400.0, duration_sec=0.01)


def _lens(case, ctx):
    """Utterance lengths around every way of just filling, just missing and just exceeding the 160 samples."""
    k, off = case["parts"], case["off"]
    tot = 160 + off
    for lens in ((tot // k,) * k if tot % k == 0 else (tot // k,) * (k - 1) + (tot - (k - 1) * (tot // k),), (tot - 3 * (k - 1),) + (3,) * (k - 1), (tot,), (max(1, tot // k), 0)):
        for n in (1, 2, 6):
            _one(ctx, f"utterance lengths {lens} {n} sources", n, 0, lens=lens, trajectory_steps=2, seeds=(1, 2))


def _loud(case, ctx):
    """Loudness is set by the microphone distance too: level 1 within 1.8 m gives about 0.5 per stem."""
    lev = LEVELS[case["level"]]
    for kw in (dict(), dict(octa_edge_m=3.0, room_size=(12.0, 12.0, 6.0), mic_center=(6.0, 6.0, 3.0), randomize_mic_center=False), dict(max_order=3, rir_samples=300, rt60=3.0, octa_edge_m=2.4, mic_center=(4.0, 3.0, 1.75), room_size=(8.0, 6.0, 3.5), randomize_mic_center=False)):
        _one(ctx, f"level {lev} sources {case['n']} {kw}", case["n"], 1 if case["n"] > 1 else 0, level=lev, seeds=range(4), **kw)


def _draws(case, ctx):
    """Every speaker draw and utterance shuffle (random.Random stubbed)."""
    n = case["n"]
    bound = 4 if n == 1 else 5
    for ch, ok in explore(lambda ch: _one(ctx, f"draws {n}", n, 0, ch=ch, pybound=bound, trajectory_steps=2, speakers=B.SPEAKERS[:3])):
        ctx.traces += 1
        if not ok:
            return


def _rooms(case, ctx):
    for n, m in ((1, 1), (2, 1), (3, 2)):
        _one(ctx, f"{ROOMS[case['room']]} {n} sources", n, m, seeds=(1, 2, 3), trajectory_steps=6, **ROOMS[case["room"]])


def _short(case, ctx):
    """Signals of a handful of samples with the shortest responses the high-pass filter admits."""
    for taps in (10, 11, 12, 16, 17):
        for n, m, steps in ((1, 1, 2), (2, 1, 1), (1, 0, 4)):
            _one(
                ctx, f"duration of {case['length']} samples, {taps} taps, {n} sources, {steps} steps", n, m, level=0.5, lens=(3, 1, 2), scenes=1,
                duration_sec=(case["length"] + 0.5) / 16000, rir_samples=taps, trajectory_steps=steps, octa_edge_m=3.0, room_size=(6.0, 6.0, 5.0),
                mic_center=(3.0, 3.0, 2.5), randomize_mic_center=False,
            )


def _large(case, ctx):
    k = case["kind"]
    thorough = ctx.tier != "quick"
    if k == "sources":
        for n, m in ((4, 3), (5, 2), (6, 5)):
            _one(ctx, f"{n} sources {m} moving", n, m, seeds=(3, 4), trajectory_steps=6)
    elif k == "steps":
        for steps in (33, 130, 300) + ((1025,) if thorough else ()):
            _one(ctx, f"{steps} steps", 2, 1, seeds=(3,), trajectory_steps=steps, duration_sec=0.05, moving_speed_min=50.0, moving_speed_max=90.0)
    elif k == "scenes":
        _one(ctx, "13 scenes", 2, 1, seeds=(3,), scenes=13 if not thorough else 102, trajectory_steps=3)
    else:
        _one(ctx, "half a second and 900 taps", 2, 1, seeds=(3,), lens=(2500, 3000, 2000), duration_sec=0.5, rir_samples=900, trajectory_steps=9)


def _layout(case, ctx):
    m = case["mask"]
    kw = dict(save_layout_images=bool(m & 1), save_layout_images_3d=bool(m & 2), annotate_source_indices=bool(m & 4))
    files = (["room_layout_2d.png"] if m & 1 else []) + (["room_layout_3d.png"] if m & 1 and m & 2 else [])
    _one(ctx, f"layout {kw}", 2, 1, files=files, **kw)
