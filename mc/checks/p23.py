"""P23: placement and motion of generated scenes, for every answer of the random generator."""

import itertools
import math
import shutil

import numpy as np

from mc import buildlib as B
from mc.core import explore, raises

ID = "P23"
LEVEL = "model_checking"
TECHNIQUE = "stateless model checking of the real builder: depth-first exploration of all answer sequences of its random generator up to a draw bound"
NOTE = (
    "The generator is a choice point (quantiles of each uniform range, eight base azimuths, every subset of moving sources, permutations, both directions); all answer sequences up to the draw "
    "bound are run through the public builder and the written metadata is judged from first principles (distances, margins, azimuth spacing, arc positions per step, speeds)."
)
RULE = (
    "room/margin/array configurations x source counts 1..6 x moving counts x steps {1,2,3,7,11} x motion windows x all generator answers up to the draw bound (quantiles {~0, .5, ~1}), plus exact range ends; "
    "infeasible configurations. Non-trivial: distinct generated trajectories."
)
ASSUMPTIONS = ["impulse-response simulation replaced by a constant (P22 judges audio)", "draws beyond the bound answer the first quantile", "a range end hit exactly may be refused with ValueError (rounding)"]
CASE_LIMIT = 600
LO, HI = 1e-6, 1 - 1e-6

CONF = [
    dict(),
    dict(room_size=(4.7, 4.8, 1.6)),
    dict(room_size=(9.0, 5.5, 3.0), source_margin=(0.2, 0.8, 0.1)),
    dict(room_size=(12.0, 11.0, 9.0), octa_edge_m=6.0, source_margin=(0.0, 0.1, 0.0)),
    dict(mic_center=(2.6, 3.4, 1.2), randomize_mic_center=False),
    dict(mic_center=(4.0, 3.0, 1.5), randomize_mic_center=False, moving_speed_min=0.5, moving_speed_max=0.5, move_start_ratio=0.0, move_end_ratio=1.0),
    dict(moving_speed_min=300.0, moving_speed_max=900.0, move_start_ratio=0.2, move_end_ratio=0.55),
    dict(moving_speed_min=100.0, moving_speed_max=101.0, move_start_ratio=0.9, move_end_ratio=0.93),
    # long arcs: whole turns and arcs that start and end inside while a wider one would bulge over a wall margin
    dict(room_size=(12.0, 6.0, 3.0), mic_center=(6.0, 3.0, 1.5), randomize_mic_center=False, moving_speed_min=2000.0, moving_speed_max=6000.0, move_start_ratio=0.0, move_end_ratio=1.0),
    dict(room_size=(7.0, 14.0, 3.0), moving_speed_min=3000.0, moving_speed_max=9000.0, move_start_ratio=0.1, move_end_ratio=0.8),
    dict(room_size=(11.0, 7.0, 4.0), source_margin=(2.0, 0.1, 0.3), mic_center=(5.0, 3.2, 2.0), randomize_mic_center=False, moving_speed_min=1500.0, moving_speed_max=15000.0, move_start_ratio=0.0, move_end_ratio=0.5),
]
LONG_ROOMS = [
    dict(room_size=(5.2, 300.0, 3.0)), dict(room_size=(300.0, 5.2, 3.0)), dict(room_size=(60.0, 6.0, 2.0), source_margin=(0.1, 0.7, 0.2)),
    dict(room_size=(5.0, 2000.0, 3.0), mic_center=(2.5, 700.0, 1.5), randomize_mic_center=False), dict(room_size=(4000.0, 4.9, 3.0), source_margin=(1.0, 0.2, 0.3)),
]
# quarter turns and small deviations to either side, as parts of a turn
NEAR_AXIS = sorted({(k / 4 + s * d) % 1.0 for k in range(4) for s in (-1, 1) for d in (0.0, 1e-10, 1e-6, 1e-3, 0.01, 0.03)})
FIXED = {i for i, c in enumerate(CONF) if c.get("randomize_mic_center") is False}
LONG = {8, 9, 10}
BAD = [
    dict(room_size=(4.4, 6.0, 3.0)), dict(room_size=(8.0, 4.5, 3.0)), dict(source_margin=(0.5, 0.5, 1.5)), dict(source_margin=(0.5, 0.5, 1.6)), dict(source_margin=(2.3, 0.5, 0.3)),
    dict(octa_edge_m=2.2), dict(octa_edge_m=4.3), dict(mic_center=(2.2, 3.0, 1.5), randomize_mic_center=False), dict(mic_center=(4.0, 3.8, 1.5), randomize_mic_center=False),
    dict(mic_center=(-4.0, 3.0, 1.5), randomize_mic_center=False), dict(mic_center=(20.0, 3.0, 1.5), randomize_mic_center=False),
    dict(room_size=(4.59, 4.59, 3.0)), dict(n_sources=7, speakers=B.SPEAKERS + ["ksp"]), dict(n_moving_sources=3), dict(n_moving_sources=-1), dict(n_sources=0, n_moving_sources=0),
]


def cases(tier):
    yield from sorted(_cases(tier), key=lambda c: -c.get('bound', 0) * 10 - c.get('n', 0))


def _cases(tier):
    deep = tier != "quick"
    for c in range(len(CONF)):
        for n in (1, 2, 3, 6):
            for m in sorted({0, 1, 2, n} & set(range(n + 1))):
                yield dict(k="tree", conf=c, n=n, m=m, steps=(11, 7, 3, 2)[(c + n + m) % 4], bound=(6 - (n > 2) - (n > 3)) - (c in FIXED) if deep else (4 if c in (0, 1, 6) and n in (1, 3) else 3) - (c in FIXED))
        if c in LONG:
            for n, m in ((1, 1), (2, 2), (2, 1), (4, 4)):
                yield dict(k="late" if c not in FIXED else "tree", conf=c, n=n, m=m, steps=13, skip=0 if c in FIXED else 3, bound=(5 if deep else 4) if n < 4 else 4 if deep else 2)
        for start in range(0, 9 if deep else 6):
            yield dict(k="late", conf=c, n=2, m=1, steps=7, skip=3 + start, bound=2 if not deep else 4)
        for n in (1, 3, 6):
            yield dict(k="seeds", conf=c, n=n, m=n // 2 + 1 if n > 1 else 1, steps=(1, 2, 11)[n % 3])
        for n in (1, 4):
            yield dict(k="ends", conf=c, n=n, m=1, steps=5, bound=3 if not deep else 5)
    for c, n in itertools.product(range(len(LONG_ROOMS)), (1, 2, 3, 4)):
        yield dict(k="axis", conf=c, n=n, m=min(1, n - 1), steps=3, bound=3)
    for i in range(len(BAD)):
        yield dict(k="bad", i=i)


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


def window(args):
    return args.get("move_start_ratio", 0.35), args.get("move_end_ratio", 0.65)


def judge(ctx, what, folder, args):
    meta, info = B.scene(folder)
    ctx.count()
    n, m, T = args["n_sources"], args["n_moving_sources"], args["trajectory_steps"]
    size = np.array(args.get("room_size", (8.0, 6.0, 3.0)))
    margin = np.array(args.get("source_margin", (0.5, 0.5, 0.3)))
    dur = args["duration_sec"]
    ex = meta["extra"]
    if not ctx.check(np.allclose(meta["room"]["size"], size, rtol=0, atol=1e-12), f"{what}: room {meta['room']['size']}"):
        return False
    tr = meta["trajectories"] if meta["dynamic"] else {"sources": [meta["sources"]["positions"]], "mics": [meta["mics"]["positions"]]}
    src = np.array(tr["sources"], dtype=float)
    mic = np.array(tr["mics"], dtype=float)
    if not ctx.check(src.shape == (T, n, 3) and mic.shape == (T, 6, 3), f"{what}: trajectories {src.shape} {mic.shape}"):
        return False
    if not ctx.check(np.isfinite(src).all() and np.isfinite(mic).all(), f"{what}: positions not finite"):
        return False
    rand = args.get("randomize_mic_center", True)
    ok = ctx.check((mic == mic[0]).all(), f"{what}: microphones move")
    center = mic[0].mean(0)
    r_arr = args.get("octa_edge_m", 1.0) / math.sqrt(2)
    ok &= ctx.check(np.allclose(np.linalg.norm(mic[0] - center, axis=1), r_arr, atol=1e-9), f"{what}: array radius {np.linalg.norm(mic[0] - center, axis=1)}, expected {r_arr}")
    ok &= ctx.check(np.allclose(center, ex["mic_center_xyz_m"], atol=1e-9), f"{what}: reported centre {ex['mic_center_xyz_m']} but {center}")
    if rand:
        ok &= ctx.check((mic[0] >= -1e-9).all() and (mic[0] <= size + 1e-9).all(), f"{what}: microphone outside the room: {mic[0].tolist()}")
    else:
        ok &= ctx.check(np.allclose(center, args.get("mic_center", (4.0, 3.0, 1.5)), atol=1e-9), f"{what}: array centre {center}")
    ok &= ctx.check((src >= margin - 1e-9).all() and (src <= size - margin + 1e-9).all(), lambda: f"{what}: source leaves the margins: {src.tolist()}")
    rel = src - center
    dist = np.hypot(rel[..., 0], rel[..., 1])
    ok &= ctx.check((dist >= 1.8 - 1e-9).all(), lambda: f"{what}: source {dist.min()} m from the array centre")
    az = np.arctan2(rel[..., 1], rel[..., 0])
    s = np.sort(np.mod(az[0] - az[0, 0] + 1e-7, 2 * math.pi)) - 1e-7
    ok &= ctx.check(np.allclose(s, np.arange(n) * 2 * math.pi / n, atol=1e-6), f"{what}: start azimuths {np.degrees(az[0])} not evenly spaced")
    ok &= ctx.check(abs(ex["azimuth_step_deg"] - 360 / n) < 1e-9, f"{what}: azimuth step {ex['azimuth_step_deg']}")
    mov = ex["moving_source_indices"]
    ok &= ctx.check(len(set(mov)) == len(mov) == m and set(mov) <= set(range(n)), f"{what}: moving sources {mov}, asked for {m}")
    ok &= ctx.check(np.allclose(np.array(meta["sources"]["positions"]), src[0], atol=1e-12), f"{what}: source positions are not the starts")
    ok &= ctx.check(len(info) == n and meta["source_info"] == info and [x["is_moving"] for x in info] == [i in mov for i in range(n)], f"{what}: source entries {info}")
    a, b = window(args)
    mt = ex["motion_time_sec"]
    mp = ex["motion_profile"]
    ok &= ctx.check(np.allclose([mp["pre_static_ratio"], mp["move_ratio"], mp["post_static_ratio"]], [a, b - a, 1 - b], atol=1e-12), f"{what}: motion profile {mp}")
    ok &= ctx.check(all(abs(x["move_start_sec"] - a * dur) < 1e-12 and abs(x["move_end_sec"] - b * dur) < 1e-12 for x in info), f"{what}: move windows of the source entries {info}")
    ok &= ctx.check(np.allclose([mt["total"], mt["move_start"], mt["move_end"]], [dur, a * dur, b * dur], atol=1e-12), f"{what}: motion times {mt}")
    if not ok:
        return False
    lo, hi = args.get("moving_speed_min", 0.3), args.get("moving_speed_max", 0.8)
    tau = np.linspace(0, 1, T) if T > 1 else np.zeros(1)
    alpha = np.clip((tau - a) / (b - a), 0, 1)
    for i in range(n):
        v, w, d = ex["source_velocity_mps"][i], ex["angular_velocity_rad_s"][i], ex["turn_direction"][i]
        x = info[i]
        ok &= ctx.check((x["velocity_mps"], x["angular_velocity_rad_s"], x["turn_direction"]) == (v, w, d), f"{what}: source {i} entry {x} against {v, w, d}")
        ok &= ctx.check(abs((ex["start_azimuth_deg"][i] - math.degrees(az[0, i]) + 180) % 360 - 180) < 1e-6, f"{what}: source {i} start azimuth {ex['start_azimuth_deg'][i]}, is {math.degrees(az[0, i])}")
        sweep = math.radians(ex["end_azimuth_deg"][i] - ex["start_azimuth_deg"][i])
        if i not in mov:
            ok &= ctx.check(v == 0 and w == 0 and d == 0 and abs(sweep) < 1e-12 and (src[:, i] == src[0, i]).all(), f"{what}: static source {i} has {v, w, d, sweep} or moves")
            continue
        r = dist[0, i]
        ok &= ctx.check(lo - 1e-12 <= v <= hi + 1e-12, f"{what}: speed {v} outside {lo, hi}")
        ok &= ctx.check(d in (-1, 1) and abs(w - d * v / r) < 1e-9 * max(1, abs(w)), f"{what}: source {i} angular velocity {w} for speed {v}, radius {r}, direction {d}")
        ok &= ctx.check(abs(sweep - w * (b - a) * dur) < 1e-8 * max(1, abs(sweep)), f"{what}: source {i} sweeps {sweep}, expected {w * (b - a) * dur}")
        th = az[0, i] + sweep * alpha
        exp = np.stack([center[0] + r * np.cos(th), center[1] + r * np.sin(th), np.full(T, src[0, i, 2])], -1)
        ok &= ctx.check(np.allclose(src[:, i], exp, atol=1e-7), lambda: f"{what}: source {i} path {src[:, i].tolist()}, expected {exp.tolist()}")
    ctx.note(src.tobytes())
    ctx.state(src.tobytes())
    return bool(ok)


class Run:
    def __init__(self, ctx, case, skip=0):
        self.ctx, self.skip = ctx, skip
        self.d = ctx.dir()
        conf = (LONG_ROOMS if case["k"] == "axis" else CONF)[case["conf"]]
        self.args = {**B.SMALL, "duration_sec": 0.001, "rir_samples": 2, "n_sources": case["n"], "n_moving_sources": case["m"], "trajectory_steps": case["steps"], **conf}
        B.write_cmu(self.d / "cmu", speakers=B.SPEAKERS[: case["n"]], n=1, lens=(20,))
        self.args["speakers"] = B.SPEAKERS[: case["n"]]

    def __call__(self, ch, **kw):
        out = self.d / "out"
        err = raises(lambda: B.build(self.d / "cmu", out, ch=ch, stub_sim=True, **{**self.args, **kw}), ValueError)
        return err, out

    def wipe(self):
        shutil.rmtree(self.d / "out", ignore_errors=True)


def _tree(case, ctx, strict=True, quant=(LO, 0.5, HI), n_scenes=1, first=0.5):
    r = Run(ctx, case)
    q = (first, *[x for x in quant if x != first])
    for ch, (err, out) in explore(lambda ch: r(ch, bound=case["bound"] + case.get("skip", 0), quant=q)):
        ctx.transitions += len(ch.trace)
        ctx.traces += 1
        what = f"{case} answers {[v for v, _ in ch.trace]}"
        ok = True
        if err:
            ctx.count()
            ctx.bump("refused")
            ok = ctx.check(not strict, f"{what}: feasible configuration refused: {err}")
            ok &= ctx.check(not list(out.rglob("metadata.json")), f"{what}: failed but left a scene")
        else:
            ok = judge(ctx, what, out / "scene_0000", r.args)
        r.wipe()
        if not ok:
            return


def _late(case, ctx):
    """Explore a later window of the draws: the first ones answer the middle quantile."""
    r = Run(ctx, case)

    class Win:
        def __init__(self, ch):
            self.ch, self.n = ch, 0
            self.trace = []

        def pick(self, n):
            self.n += 1
            if self.n <= case["skip"] or self.n > case["skip"] + case["bound"]:
                return 0
            return self.ch.pick(n)

    for ch, (err, out) in explore(lambda ch: r(Win(ch), bound=99, quant=(0.5, LO, HI))):
        ctx.transitions += len(ch.trace)
        ctx.traces += 1
        what = f"{case} answers {[v for v, _ in ch.trace]}"
        if err:
            ctx.count()
            ok = ctx.fail(f"{what}: feasible configuration refused: {err}")
        else:
            ok = judge(ctx, what, out / "scene_0000", r.args)
        r.wipe()
        if not ok:
            return


def _axis(case, ctx):
    """Long halls and azimuths at and next to the axes, where only a far wall limits one coordinate and a near wall the other."""
    r = Run(ctx, case)
    for skip in (0, 2) if ctx.tier == "quick" else range(5):

        class Win:
            def __init__(self, ch):
                self.ch, self.n, self.trace = ch, 0, []

            def pick(self, n):
                self.n += 1
                if n == len(NEAR_AXIS):
                    return self.ch.pick(n)
                return self.ch.pick(n) if skip < self.n <= skip + 2 else 0

        for ch, (err, out) in explore(lambda ch: r(Win(ch), bound=99, quant=(HI, LO), angles=NEAR_AXIS)):
            ctx.transitions += len(ch.trace)
            ctx.traces += 1
            what = f"{case} window {skip} answers {[v for v, _ in ch.trace]}"
            if err:
                ctx.count()
                ok = ctx.fail(f"{what}: feasible configuration refused: {err}")
            else:
                ok = judge(ctx, what, out / "scene_0000", r.args)
            r.wipe()
            if not ok:
                return


def _ends(case, ctx):
    _tree(case, ctx, strict=False, quant=(0.0, B.HI), first=0.0)


def _seeds(case, ctx):
    r = Run(ctx, case)
    for seed in range(6 if ctx.tier == "quick" else 60):
        err, out = r(None, seed=seed, n_scenes=2)
        if not ctx.check(err is None, f"{case} seed {seed}: feasible configuration refused: {err}"):
            return
        for i in range(2):
            if not judge(ctx, f"{case} seed {seed} scene {i}", out / f"scene_{i:04d}", r.args):
                return
        if case["conf"] not in FIXED:
            a, b = (B.scene(out / f"scene_{i:04d}")[0]["extra"]["mic_center_xyz_m"] for i in range(2))
            ctx.check(a != b, f"{case} seed {seed}: both scenes share the random array centre {a}")
        r.wipe()


def _bad(case, ctx):
    d = ctx.dir()
    B.write_cmu(d / "cmu", speakers=B.SPEAKERS + ["ksp"], n=1, lens=(170,))
    kw = {**B.SMALL, "n_sources": 2, "n_moving_sources": 1, **BAD[case["i"]]}
    for seed in range(10):
        ctx.count()
        err = raises(lambda: B.build(d / "cmu", d / "out", stub_sim=True, seed=seed, **kw), ValueError)
        ctx.check(err is not None, f"{BAD[case['i']]}: infeasible scene was built")
        ctx.check(not list((d / "out").rglob("metadata.json")) if (d / "out").exists() else True, f"{BAD[case['i']]}: refused but left a scene")
        ctx.note((BAD[case["i"]], str(err)))
        shutil.rmtree(d / "out", ignore_errors=True)
    shutil.rmtree(d)
