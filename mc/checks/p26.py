"""P26: scene metadata tells the truth and survives JSON."""

import itertools
import json
import math
import shutil
from pathlib import Path

import torch

from mc.core import raises

from torchrir import MicrophoneArray, Room, Source
from torchrir.io import build_metadata, save_metadata_json, save_scene_metadata

ID = "P26"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of scenes (dimension, entity counts, trajectory forms and lengths, dtypes, optional parts) on the real metadata builder against plain scalar arithmetic"
NOTE = (
    "All combinations of dimension, source and microphone counts, trajectory form and length on either side, timestamps, signal length, room parameters and dtypes are built, every field is "
    "compared with values computed entry by entry in Python, and the saved file is parsed back."
)
RULE = "dim {2,3} x sources 1..3 x mics 1..4 x trajectory kinds (none, single step, 2, 5 steps, single-entity form) on each side x optional fields x dtypes; mismatch and shape errors. Non-trivial: distinct JSON documents."
ASSUMPTIONS = ["free-form entries hold JSON values, tensors and paths", "finite values", "a single-step trajectory may be reported as static"]
KINDS = ("none", "one", "two", "five", "flat5", "flat1")


def cases(tier):
    for dim, ns, nm in itertools.product((2, 3), (1, 2, 3), (1, 2, 3, 4)):
        yield dict(k="scene", dim=dim, ns=ns, nm=nm)
    for dim in (2, 3):
        yield dict(k="angles", dim=dim)
        yield dict(k="bad", dim=dim)
        for n in (1, 2, 3, 5, 8, 26, 32, 64):
            yield dict(k="array", dim=dim, n=n)
    yield dict(k="free")
    for dim in (2, 3):
        for ns in (2, 999, 5000, 48001, 200001):
            yield dict(k="long", dim=dim, nsample=ns)


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


def pts(n, dim, seed, dt):
    g = torch.Generator().manual_seed(seed)
    return (torch.rand(n, dim, generator=g, dtype=torch.float64) * 3 + 0.1).to(dt)


def traj(kind, n, dim, seed, dt):
    """(tensor handed in, list of steps) for n entities."""
    t = {"none": 0, "one": 1, "two": 2, "five": 5, "flat5": 5, "flat1": 1}[kind]
    if t == 0:
        return None, None
    x = torch.stack([pts(n, dim, seed + 31 * i, dt) for i in range(t)])
    return (x[:, 0] if kind.startswith("flat") else x), x.double().tolist()


def close(a, b, tol):
    if isinstance(b, (list, tuple)):
        return isinstance(a, list) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if b is None or isinstance(b, (str, bool)):
        return a == b
    return isinstance(a, (int, float)) and abs(a - b) <= tol * max(1.0, abs(b))


def angle_close(a, b, tol):
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(angle_close(x, y, tol) for x, y in zip(a, b))
    return abs((a - b + math.pi) % (2 * math.pi) - math.pi) <= tol


def doa(src, mic):
    az, el = [], []
    for s_step, m_step in zip(src, mic):
        az.append([[math.atan2(s[1] - m[1], s[0] - m[0]) for m in m_step] for s in s_step])
        el.append([[math.atan2(s[2] - m[2], math.hypot(s[0] - m[0], s[1] - m[1])) if len(s) > 2 else 0.0 for m in m_step] for s in s_step])
    return az, el


def judge(ctx, what, meta, *, room, src, mic, rirs, st, mt, timestamps=None, signal_len=None, tol=1e-6):
    ctx.count()
    fs = float(room.fs)
    sp, mp = src.positions.double().tolist(), mic.positions.double().tolist()
    T = max(len(st or [0]), len(mt or [0]))
    S = [list(map(list, (st or [sp])[0 if len(st or [0]) == 1 else t])) for t in range(T)]
    M = [list(map(list, (mt or [mp])[0 if len(mt or [0]) == 1 else t])) for t in range(T)]
    orient = lambda o: None if o is None else o.double().tolist()
    exp = {
        "room.size": room.size.double().tolist(), "room.c": float(room.c), "room.fs": fs, "room.beta": None if room.beta is None else room.beta.double().tolist(),
        "room.t60": None if room.t60 is None else float(room.t60), "sources.positions": sp, "mics.positions": mp, "sources.orientation": orient(src.orientation),
        "mics.orientation": orient(mic.orientation), "rirs_shape": list(rirs.shape), "dynamic": T > 1, "time_axis.fs": fs, "time_axis.nsample": rirs.shape[-1],
        "time_axis.t": [n / fs for n in range(rirs.shape[-1])], "array.positions": mp, "array.orientation": orient(mic.orientation), "array.center": [sum(c) / len(mp) for c in zip(*mp)],
        "doa.unit": "radians",
    }
    ok = True
    for key, val in exp.items():
        got = meta
        for part in key.split("."):
            got = got[part]
        if key == "time_axis.t":
            good = len(got) == len(val) and all(abs(a - b) <= 5e-7 * b for a, b in zip(got, val))
            ok &= ctx.check(good, lambda: f"{what}: the time axis is not n/fs: {[(k, a, b) for k, (a, b) in enumerate(zip(got, val)) if abs(a - b) > 5e-7 * b][:2]}")
            continue
        ok &= ctx.check(close(got, val, tol if key == "array.center" else 1e-9) and (key != "dynamic" or got is val), f"{what}: {key} is {got}, expected {val}")
    tr = meta["trajectories"]
    if T > 1:
        ok &= ctx.check(close(tr["sources"], S, 1e-9) and close(tr["mics"], M, 1e-9), f"{what}: trajectories {tr}, expected {S} / {M}")
    else:
        ok &= ctx.check((tr["sources"] is None or close(tr["sources"], S, tol)) and (tr["mics"] is None or close(tr["mics"], M, tol)), f"{what}: trajectories {tr} for a static scene")
    az, el = doa(S, M)
    ok &= ctx.check(angle_close(meta["doa"]["azimuth"], az, 10 * tol), lambda: f"{what}: azimuth {meta['doa']['azimuth']}, expected {az}")
    ok &= ctx.check(angle_close(meta["doa"]["elevation"], el, 10 * tol), lambda: f"{what}: elevation {meta['doa']['elevation']}, expected {el}")
    if timestamps is not None:
        ok &= ctx.check(close(meta["timestamps"], timestamps.double().tolist(), tol), f"{what}: timestamps {meta['timestamps']}, given {timestamps}")
    elif T > 1 and signal_len is not None:
        end = max(0, signal_len - 1) / fs
        ok &= ctx.check(close(meta["timestamps"], [end * t / (T - 1) for t in range(T)], tol), f"{what}: timestamps {meta['timestamps']}, expected 0..{end}")
    else:
        ok &= ctx.check(meta["timestamps"] is None, f"{what}: timestamps {meta['timestamps']}, expected none")
    d = [math.dist(a, b) for a, b in itertools.combinations(mp, 2)]
    pos = [x for x in d if x > 0]
    sp_got = meta["array"]["spacing"]
    if pos and min(d) > 0:
        ok &= ctx.check(sp_got is not None and abs(sp_got - min(pos)) <= 10 * tol * max(1, min(pos)), f"{what}: spacing {sp_got}, expected {min(pos)}")
    elif not d:
        ok &= ctx.check(sp_got is None, f"{what}: spacing {sp_got} for one microphone")
    else:
        ok &= ctx.check(sp_got in (None, 0.0) or (pos and abs(sp_got - min(pos)) <= 10 * tol), f"{what}: spacing {sp_got} with coincident microphones")
    label = {1: "single", 2: "binaural"}.get(len(mp), "custom")
    ok &= ctx.check(meta["array"]["geometry"] == label, f"{what}: array of {len(mp)} called {meta['array']['geometry']}")
    text = json.dumps(meta)
    ok &= ctx.check(json.loads(text) == meta, f"{what}: JSON changes the value")
    ctx.note(text)
    return ok


ROOMS = [dict(beta=[0.1, 0.2, 0.3, 0.4, 0.5, 0.6]), dict(t60=0.4, c=340.0), dict()]
OPT = [dict(), dict(signal_len=100), dict(signal_len=1), dict(signal_len=0), dict(timestamps=True), dict(timestamps=True, signal_len=50), dict(signal_len=60001)]


def facing(k, n, dim, seed, dt):
    """The forms in which an orientation may be given: none, a vector, one per entity, angles, angles per entity."""
    forms = [None, pts(1, dim, seed, dt)[0], pts(n, dim, seed, dt)]
    if dim == 2:
        forms += [torch.tensor(0.25, dtype=dt), torch.full((1,), 1.5, dtype=dt), pts(n, 1, seed, dt), pts(n, 1, seed, dt)[:, 0]]
    else:
        forms += [pts(1, 2, seed, dt)[0], pts(n, 2, seed, dt)]
    return forms[k % len(forms)]


def _scene(case, ctx):
    dim, ns, nm = case["dim"], case["ns"], case["nm"]
    d = ctx.dir()
    k = 0
    for sk, mk, dt, (oi, opt) in itertools.product(KINDS, KINDS, (torch.float64, torch.float32), enumerate(OPT)):
        if sk.startswith("flat") and ns > 1 or mk.startswith("flat") and nm > 1:
            continue
        k += 1
        rk = dict(ROOMS[k % 3])
        if "beta" in rk:
            rk["beta"] = rk["beta"][: 2 * dim]
        room = Room.shoebox(size=[4.1, 5.2, 3.3][:dim], fs=(16000, 8000.5, 44100, 7.75)[k % 4], dtype=dt, **rk)
        so, mo = facing(k // 3, ns, dim, 5, dt), facing(k, nm, dim, 6, dt)
        src, mic = Source.from_positions(pts(ns, dim, 1, dt), orientation=so), MicrophoneArray.from_positions(pts(nm, dim, 2, dt), orientation=mo)
        a, st = traj(sk, ns, dim, 10 + k % 7, dt)
        b, mt = traj(mk, nm, dim, 20 + k % 5, dt)
        T, U = len(st or [0]), len(mt or [0])
        rirs = torch.zeros(*(() if max(T, U) == 1 else (max(T, U),)), ns, nm, 3 + k % 5)
        kw = dict(opt)
        if kw.pop("timestamps", None):
            kw["timestamps"] = torch.linspace(0.05, 1.3, max(T, U), dtype=dt)
        args = dict(room=room, sources=src, mics=mic, rirs=rirs, src_traj=a, mic_traj=b, **kw)
        what = f"dim {dim} src {ns} {sk} mic {nm} {mk} {dt} {opt}"
        if T != U and T > 1 and U > 1:
            ctx.count()
            ctx.check(raises(lambda: build_metadata(**args), ValueError), f"{what}: different step counts accepted")
            continue
        keep = [None if t is None else t.clone() for t in (a, b, src.positions, mic.positions, rirs)]
        meta = build_metadata(**args)
        tol = 1e-6
        if not judge(ctx, what, meta, room=room, src=src, mic=mic, rirs=rirs, st=st, mt=mt, timestamps=kw.get("timestamps"), signal_len=kw.get("signal_len"), tol=tol):
            return
        same = all((t is None and u is None) or torch.equal(t, u) for t, u in zip(keep, (a, b, src.positions, mic.positions, rirs)))
        ctx.check(same, f"{what}: an input was changed")
        if k % 5 == 0:
            p = d / "x" / "y" / "m.json"
            save_metadata_json(p, meta)
            ctx.check(json.loads(p.read_text(encoding="utf-8")) == meta, f"{what}: saved file differs from the metadata")
            ret = save_scene_metadata(out_dir=d / "s" / "t", metadata_name="meta.json", **args)
            ctx.check(ret == meta and json.loads((d / "s" / "t" / "meta.json").read_text(encoding="utf-8")) == meta, f"{what}: save_scene_metadata differs from build_metadata")
    shutil.rmtree(d)


def _angles(case, ctx):
    """Sources all around, above, below and on top of the microphones."""
    dim = case["dim"]
    room = Room.shoebox(size=[4.0] * dim, fs=8000, dtype=torch.float64)
    grid = [-1.5, -0.5, 0.0, 0.5, 1.0]
    off = torch.tensor(list(itertools.product(grid, repeat=dim)), dtype=torch.float64)
    c = torch.full((dim,), 2.0, dtype=torch.float64)
    mic = MicrophoneArray.from_positions(torch.stack([c, c + 0.25]))
    src = Source.from_positions(c + off)
    r = torch.zeros(len(off), 2, 4)
    judge(ctx, f"static directions dim {dim}", build_metadata(room=room, sources=src, mics=mic, rirs=r), room=room, src=src, mic=mic, rirs=r, st=None, mt=None, tol=1e-9)
    t = (c + off)[:, None, :]
    one = Source.from_positions(c[None] + 0.1)
    m = build_metadata(room=room, sources=one, mics=mic, rirs=torch.zeros(len(off), 1, 2, 4), src_traj=t, signal_len=10)
    judge(ctx, f"moving directions dim {dim}", m, room=room, src=one, mic=mic, rirs=torch.zeros(len(off), 1, 2, 4), st=t.tolist(), mt=None, signal_len=10, tol=1e-6)


def _array(case, ctx):
    dim, n = case["dim"], case["n"]
    room = Room.shoebox(size=[4.0] * dim, fs=8000, dtype=torch.float64)
    src = Source.from_positions([[1.0] * dim])
    for dt, scale, shift in itertools.product((torch.float32, torch.float64), (1.0, 1e-3), (0.0, 3.0)):
        pos = (pts(n, dim, n, torch.float64) * scale + shift).to(dt)
        mic = MicrophoneArray.from_positions(pos)
        r = torch.zeros(1, n, 2)
        judge(ctx, f"array of {n} scale {scale} shift {shift} {dt}", build_metadata(room=room, sources=src, mics=mic, rirs=r), room=room, src=src, mic=mic, rirs=r, st=None, mt=None)
        if n >= 3:
            mic = MicrophoneArray.from_positions(torch.cat([pos, pos[:1]]))
            r = torch.zeros(1, n + 1, 2)
            judge(ctx, f"array of {n} with a coincident pair {dt}", build_metadata(room=room, sources=src, mics=mic, rirs=r), room=room, src=src, mic=mic, rirs=r, st=None, mt=None)


def _long(case, ctx):
    """Long responses, signals and trajectories, many entities."""
    dim, n = case["dim"], case["nsample"]
    for fs in (44100, 8000.5, 48000, 1.0, 192000):
        room = Room.shoebox(size=[4.0] * dim, fs=fs, dtype=torch.float64)
        src, mic = Source.from_positions(pts(1, dim, 1, torch.float64)), MicrophoneArray.from_positions(pts(1, dim, 2, torch.float64))
        r = torch.zeros(1, 1, n)
        judge(ctx, f"dim {dim}, {n} samples at {fs}", build_metadata(room=room, sources=src, mics=mic, rirs=r), room=room, src=src, mic=mic, rirs=r, st=None, mt=None)
    for steps, ns, nm, sl in ((301, 1, 2, 10_000_000), (1025, 2, 1, 479_999), (7, 40, 3, 1), (5, 3, 130, 200)) if n == 2 else ():
        room = Room.shoebox(size=[4.0] * dim, fs=44100, dtype=torch.float64)
        src, mic = Source.from_positions(pts(ns, dim, 1, torch.float64)), MicrophoneArray.from_positions(pts(nm, dim, 2, torch.float64))
        r = torch.zeros(1, 1, 1, 2).expand(steps, ns, nm, 2)
        st = torch.stack([src.positions + 0.001 * k for k in range(steps)])
        mt = torch.stack([mic.positions - 0.0007 * k for k in range(steps)])
        m = build_metadata(room=room, sources=src, mics=mic, rirs=r, src_traj=st, mic_traj=mt, signal_len=sl)
        judge(ctx, f"dim {dim}, {steps} steps, {ns} sources, {nm} mics", m, room=room, src=src, mic=mic, rirs=r, st=st.tolist(), mt=mt.tolist(), signal_len=sl)
    if n == 2:
        for m in (101, 130, 257, 600):
            x = torch.zeros(m, dim, dtype=torch.float64)
            x[:, 0] = torch.arange(m) * 0.01
            for a in (0, m // 2, m - 1):
                y = x.clone()
                y[a, 1] = 0.0
                y[a, 0] += 0.0075 if a < m - 1 else -0.0075
                room = Room.shoebox(size=[40.0] * dim, fs=8000, dtype=torch.float64)
                src, mic = Source.from_positions([[1.0] * dim]), MicrophoneArray.from_positions(y)
                r = torch.zeros(1, m, 2)
                judge(ctx, f"{m} mics, the closest pair at {a}", build_metadata(room=room, sources=src, mics=mic, rirs=r), room=room, src=src, mic=mic, rirs=r, st=None, mt=None)


def _bad(case, ctx):
    dim = case["dim"]
    room = Room.shoebox(size=[4.0] * dim, fs=8000, dtype=torch.float64)
    src, mic = Source.from_positions(pts(2, dim, 1, torch.float64)), MicrophoneArray.from_positions(pts(2, dim, 2, torch.float64))
    o = 5 - dim
    bad = [torch.zeros(3, 2, o), torch.zeros(3, o), torch.zeros(3, 2, dim + 2), torch.zeros(3, 2, 1), torch.zeros(dim), torch.zeros(1, 3, 2, dim), torch.zeros(()), [[[1.0] * dim] * 2] * 3]
    for i, x in enumerate(bad):
        for side in ("src_traj", "mic_traj"):
            for other in (None, torch.ones(3, 2, dim, dtype=torch.float64)):
                ctx.count()
                kw = {side: x, ("mic_traj" if side == "src_traj" else "src_traj"): other}
                exc = raises(lambda: build_metadata(room=room, sources=src, mics=mic, rirs=torch.zeros(3, 2, 2, 4), **kw), ValueError, TypeError)
                ctx.check(exc is not None, f"dim {dim}: {side} of shape {getattr(x, 'shape', 'list')} accepted")
                ctx.note((dim, i, side, other is None))
    for a, b in itertools.permutations((2, 3, 4, 7), 2):
        ctx.count()
        ctx.check(raises(lambda: build_metadata(room=room, sources=src, mics=mic, rirs=torch.zeros(3, 2, 2, 4), src_traj=torch.zeros(a, 2, dim), mic_traj=torch.zeros(b, 2, dim)), ValueError), f"{a} source steps and {b} microphone steps accepted")
    other = Source.from_positions(pts(2, o, 1, torch.float64))
    ctx.check(raises(lambda: build_metadata(room=room, sources=other, mics=mic, rirs=torch.zeros(2, 2, 4)), ValueError), "sources of another dimension accepted")
    d = ctx.dir()
    exc = raises(lambda: save_scene_metadata(out_dir=d, metadata_name="m.json", room=room, sources=src, mics=mic, rirs=torch.zeros(2, 2, 4), src_traj=torch.zeros(3, 2, dim), mic_traj=torch.zeros(2, 2, dim)), ValueError)
    ctx.check(exc is not None and not (d / "m.json").exists(), "refused metadata left a file")


def _free(case, ctx):
    """source_info and extra: nested containers, tensors and paths come out as JSON values."""
    room = Room.shoebox(size=[4.0, 5.0, 3.0], fs=16000)
    src, mic = Source.from_positions([[1.0, 1, 1]]), MicrophoneArray.from_positions([[2.0, 2, 2]])
    t = torch.tensor([[1.5, 2.5], [3.0, -4.0]], dtype=torch.float64)
    atoms = [(None, None), (True, True), (3, 3), (2.5, 2.5), ("tëxt \"quoted\"", "tëxt \"quoted\""), (t, t.tolist()), (torch.tensor(7), 7), (Path("/a/b"), "/a/b"), ((), []), ([], []), ({}, {})]
    d = ctx.dir()
    vals = list(atoms)
    for v, e in atoms:
        vals += [([v], [e]), ((v, 1), [e, 1]), ({"k": v}, {"k": e}), ({"k": [v, {"z": (v,)}]}, {"k": [e, {"z": [e]}]})]
    for v, e in vals:
        for key in ("source_info", "extra"):
            val, exp = (v, e) if key == "source_info" else ({"x": v}, {"x": e})
            ctx.count()
            ret = save_scene_metadata(out_dir=d, metadata_name="m.json", room=room, sources=src, mics=mic, rirs=torch.zeros(1, 1, 4), **{key: val})
            back = json.loads((d / "m.json").read_text(encoding="utf-8"))
            if val is None:
                ctx.check("source_info" not in back or back["source_info"] is None, "source_info None reported")
            else:
                ctx.check(ret.get(key) == exp and back.get(key) == exp, f"{key}={val!r}: reported {ret.get(key)!r}, file {back.get(key)!r}")
            ctx.check(back == ret, f"{key}={val!r}: file differs from the returned value")
            ctx.note((key, repr(val)))
    shutil.rmtree(d)
