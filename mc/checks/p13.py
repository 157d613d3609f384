"""P13: objects exist exactly when their documented constraints hold, and keep what they were given."""

import dataclasses
import itertools
import math
import warnings

import torch

from mc.core import raises

from torchrir import DynamicScene, MicrophoneArray, Room, Scene, Source, StaticScene
from torchrir.config import SimulationConfig, default_config
from torchrir.sim import ISMSimulator

ID = "P13"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of all combinations of valid, boundary and invalid field values on the real constructors against a constraint table"
NOTE = (
    "Each object's fields range over an alphabet tagged valid/invalid plus the cross-field rules; all combinations with up "
    "to two (thorough three) fields away from their default are constructed and replaced."
)
RULE = (
    "all combinations of up to 2 (thorough 3) deviating fields over the tagged alphabets, for every constructor, factory "
    "and replace operation. Non-trivial: distinct (object, deviation set, verdict)."
)
ASSUMPTIONS = [
    "refusal is a ValueError, or a TypeError for a wrong type",
]

nan, inf = math.nan, math.inf
T = lambda x, dt=torch.float64: torch.tensor(x, dtype=dt)

# field -> list of (value, ok, tag); the first entry is the default
ROOM = {
    "size": [
        (T([3.1, 4.3, 2.7]), True, "3d"), (T([3.1, 4.3]), True, "2d"), (T([1e-3, 4.3, 2.7]), True, "tiny"), (T([3.5, 4.5, 2.5], torch.float32), True, "f32"),
        (torch.tensor([3, 4, 2]), True, "int"), (T([0.0, 4.3, 2.7]), False, "zero"), (T([3.1, 4.3, 0.0]), False, "zero last"), (T([3.1, -4.3, 2.7]), False, "neg"),
        (T([3.1, nan, 2.7]), False, "nan"), (T([3.1, 4.3, inf]), False, "inf"), (T([3.1]), False, "1d"), (T([3.1, 4.3, 2.7, 1.0]), False, "4d"),
        (T([[3.1, 4.3, 2.7]]), False, "matrix"), (T(3.1), False, "scalar"), (T([3.1, nan]), False, "2d nan"), (T([0.0, 1.0]), False, "2d zero"),
    ],
    "fs": [(16000, True, "int"), (8000.5, True, "float"), (1e-3, True, "tiny"), (0, False, "zero"), (-16000, False, "neg"), (nan, False, "nan")],
    "c": [(343.0, True, "air"), (1480, True, "int"), (1e-3, True, "tiny"), (0.0, False, "zero"), (-343.0, False, "neg"), (nan, False, "nan")],
    "beta": [
        (None, True, "none"), (T([0.0, 1.0, 0.5, 0.9, 0.1, 0.7]), "n6", "6"), (T([0.0, 1.0, 0.5, 0.9]), "n4", "4"), (T([0.0] * 6), "n6", "zeros6"),
        (T([1.0] * 4), "n4", "ones4"), (T([0.5] * 5), False, "5"), (T([0.5] * 5 + [-1e-3]), False, "neg last"), (T([1.001] + [0.5] * 5), False, "above one"),
        (T([0.5, nan, 0.5, 0.5, 0.5, 0.5]), False, "nan"), (T([0.5, 0.5, inf, 0.5]), False, "inf4"), (T([0.5, 0.5, 0.5, 1.5]), False, "above4"), (T([]), False, "empty"),
    ],
    "t60": [(None, True, "none"), (0.3, "t60", "0.3"), (1e-3, "t60", "tiny"), (0, False, "zero"), (-0.3, False, "neg"), (nan, False, "nan")],
}


def _ok_room(v):
    if any(ok is False for _, ok, _ in v.values()):
        return False
    dim = v["size"][0].numel()
    if v["beta"][1] in ("n4", "n6") and v["beta"][1] != ("n4" if dim == 2 else "n6"):
        return False
    return not (v["beta"][0] is not None and v["t60"][0] is not None)


POS = [
    (T([[1.0, 2.0, 0.5], [2.0, 1.0, 1.5]]), True, "3d x2"), (T([[1.0, 2.0]]), True, "2d x1"), (T([[1.0, 2.0], [0.0, -1.0], [5.0, 5.0]]), True, "2d x3"),
    (T([1.0, 2.0, 3.0]), True, "3d flat"), (T([1.0, 2.0]), True, "2d flat"), (torch.tensor([[1, 2, 3]]), True, "int"), (T([[1.0, 2.0, 0.5]], torch.float32), True, "f32"),
    (T([[1.0, nan, 0.5]]), False, "nan"), (T([[1.0, 2.0], [inf, 1.0]]), False, "inf"), (T([[1.0]]), False, "1d"), (T([[1.0, 2.0, 3.0, 4.0]]), False, "4d"),
    (T([[[1.0, 2.0, 3.0]]]), False, "rank 3"), (T(1.0), False, "scalar"), (T([1.0, 2.0, 3.0, 4.0]), False, "flat 4"),
]
ORI = [
    None, T(0.3), T([0.3]), T([1.0, 2.0]), T([0.1, 0.2, 0.3]), T([1.0, 2.0, 3.0, 4.0]), T([[0.1], [0.2], [0.3]]), T([[0.1], [0.2]]), T([[1.0, 2.0]]),
    T([[1.0, 2.0], [2.0, 1.0]]), T([[1.0, 2.0]] * 3), T([[1.0, 2.0, 3.0]]), T([[1.0, 2.0, 3.0]] * 2), T([[1.0, 2.0, 3.0]] * 3), T([[1.0, 2.0, 3.0, 4.0]] * 2),
    T([[[1.0, 2.0, 3.0]]]), T([nan, 1.0]), T([1.0, inf, 0.0]), T([[1.0, nan, 0.0]] * 2), torch.tensor([1, 0, 0]), torch.tensor([[1, 0], [0, 1]]), T([]),
]


def _ok_ori(o, n, dim):
    if o is None:
        return True
    o = o.double()
    if not torch.isfinite(o).all():
        return False
    s = tuple(o.shape)
    if dim == 2:
        return s == () or (len(s) == 1 and s[0] in (1, 2, n)) or (len(s) == 2 and s[0] == n and s[1] in (1, 2))
    return (len(s) == 1 and s[0] in (2, 3)) or (len(s) == 2 and s[0] == n and s[1] in (2, 3))


CFG = {
    "fs": [(None, 1), (8000, 1), (1e-3, 1), (0, 0), (-1.0, 0), (nan, 0)], "max_order": [(None, 1), (0, 1), (7, 1), (-1, 0)], "tmax": [(None, 1), (0.1, 1), (0, 0), (-0.1, 0), (nan, 0)],
    "seed": [(None, 1), (0, 1), (2**31, 1), (-1, 0)], "directivity": [(None, 1), ("cardioid", 1), (("omni", "bidir"), 1)], "device": [(None, 1), ("cpu", 1)],
    "use_lut": [(True, 1), (False, 1)], "mixed_precision": [(False, 1), (True, 1)], "use_compile": [(False, 1), (True, 1)],
    "frac_delay_length": [(81, 1), (1, 1), (21, 1), (0, 0), (2, 0), (80, 0), (-1, 0), (-81, 0)], "sinc_lut_granularity": [(20, 1), (1, 1), (0, 0), (-1, 0)],
    "image_chunk_size": [(2048, 1), (1, 1), (0, 0), (-1, 0)], "accumulate_chunk_size": [(4096, 1), (1, 1), (0, 0), (-1, 0)],
    "rir_hpf_enable": [(True, 1), (False, 1)], "rir_hpf_fc": [(10.0, 1), (1e-3, 1), (0, 0), (-10.0, 0), (nan, 0)],
    "rir_hpf_kwargs": [({"n": 2, "rp": 5.0, "rs": 60.0, "type": "butter"}, 1), ({}, 1), ({"n": 1}, 1), ({"n": 0}, 0), ({"n": -1}, 0), ({"rp": 1.0, "n": 0, "type": "ellip"}, 0)],
}
SIM = {
    "max_order": [(2, 1), (0, 1), (-1, 0)], "tmax": [(None, "t"), (0.1, 1), (0, 0), (-0.1, 0), (nan, 0)], "nsample": [(10, 1), (None, "n"), (1, 1), (0, 0), (-3, 0)],
    "directivity": [("omni", 1), (None, 1), (("omni", "card"), 1)], "nb_img": [(None, 1), ((1, 1), 1)], "device": [(None, 1), ("cpu", 1)], "dtype": [(None, 1), (torch.float32, 1)],
}


def _combos(table, k):
    fields = list(table)
    for r in range(k + 1):
        for fs in itertools.combinations(fields, r):
            for idx in itertools.product(*[range(1, len(table[f])) for f in fs]):
                yield dict(zip(fs, idx))


def cases(tier):
    k = 2 if tier == "quick" else 3
    n = 8
    for part in range(n):
        for what in ("room", "cfg", "sim"):
            yield dict(k=what, depth=k, part=part, n=n)
        yield dict(k="entity", part=part, n=n)
        yield dict(k="dyn", part=part, n=n)
    yield dict(k="static")
    for n in (17, 65, 300):
        yield dict(k="large", n=n)


def _part(case, it):
    return itertools.islice(it, case["part"], None, case["n"])


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["_" + case["k"]](case, ctx)


def eq(a, b):
    if torch.is_tensor(a) or torch.is_tensor(b):
        return torch.is_tensor(a) and torch.is_tensor(b) and a.shape == b.shape and torch.equal(a.double(), b.double())
    return type(a) is type(b) and a == b


def frozen(ctx, obj, what):
    for f in dataclasses.fields(obj):
        exc = raises(lambda: setattr(obj, f.name, getattr(obj, f.name)), dataclasses.FrozenInstanceError, AttributeError)
        ctx.check(exc is not None, f"{what}: field {f.name} can be assigned")


def attempt(ctx, make, ok, what):
    box = []
    exc = raises(lambda: box.append(make()), ValueError, TypeError)
    ctx.count()
    ctx.note((what, ok))
    if ctx.check((exc is None) == bool(ok), f"{what}: {'refused: %s' % exc if exc is not None else 'accepted'}") and exc is None:
        return box[0]
    return None


def _keeps(ctx, obj, given, what):
    for f, v in given.items():
        got = getattr(obj, f)
        if f in ("positions",) and v.ndim == 1:
            v = v.unsqueeze(0)
        ctx.check(eq(got, v) if torch.is_tensor(v) else (got == v), f"{what}: {f} is {got!r}, given {v!r}")
        if torch.is_tensor(v):
            want = v.dtype if v.is_floating_point() else torch.get_default_dtype()
            if f == "beta":
                want = obj.size.dtype
            ctx.check(got.dtype == want, f"{what}: {f} has dtype {got.dtype}, given {v.dtype}")


def _room(case, ctx):
    for idx in _part(case, _combos(ROOM, case["depth"])):
        v = {f: ROOM[f][idx.get(f, 0)] for f in ROOM}
        vals = {f: x[0] for f, x in v.items()}
        # the reference coefficients have to match the size's dtype to be kept exactly
        ok = _ok_room(v)
        tag = {f: v[f][2] for f in idx}
        exactb = vals["beta"] is None or vals["size"].dtype == torch.float64
        r = attempt(ctx, lambda: Room(**vals), ok, f"Room {tag}")
        if r is not None:
            if exactb:
                _keeps(ctx, r, vals, f"Room {tag}")
            frozen(ctx, r, f"Room {tag}")
        r = attempt(ctx, lambda: Room.shoebox(vals["size"], fs=vals["fs"], c=vals["c"], beta=vals["beta"], t60=vals["t60"]), ok, f"shoebox {tag}")
        if r is not None and exactb:
            _keeps(ctx, r, vals, f"shoebox {tag}")
        lists = {f: (x.tolist() if torch.is_tensor(x) else x) for f, x in vals.items()}
        r = attempt(ctx, lambda: Room.shoebox(lists["size"], fs=vals["fs"], c=vals["c"], beta=lists["beta"], t60=vals["t60"], dtype=torch.float64), ok, f"shoebox lists {tag}")
        if r is not None:
            _keeps(ctx, r, {f: (x.double() if torch.is_tensor(x) else x) for f, x in vals.items() if exactb or f != "beta"}, f"shoebox lists {tag}")
        base = Room(size=ROOM["size"][0][0], fs=16000)
        before = (base.size.clone(), base.fs, base.c, base.beta, base.t60)
        changes = {f: vals[f] for f in idx}
        r = attempt(ctx, lambda: base.replace(**changes), ok, f"Room.replace {tag}")
        ctx.check(eq(base.size, before[0]) and (base.fs, base.c, base.beta, base.t60) == before[1:], f"Room.replace {tag} changed the original")
        if r is not None and exactb:
            _keeps(ctx, r, vals, f"Room.replace {tag}")


def _entity(case, ctx):
    for (pos, pok, tag), o, cls in _part(case, itertools.product(POS, ORI, (Source, MicrophoneArray))):
        n = 1 if pos.ndim < 2 else pos.shape[0]
        dim = pos.shape[-1] if pos.ndim else 0
        ok = pok and _ok_ori(o, n, dim)
        what = f"{cls.__name__} {tag} orientation {None if o is None else tuple(o.shape)} {None if o is None or not o.numel() else o.view(-1)[0].item()}"
        e = attempt(ctx, lambda: cls(pos, o), ok, what)
        given = {"positions": pos, **({} if o is None else {"orientation": o})}
        if e is not None:
            _keeps(ctx, e, given, what)
            if o is None:
                ctx.check(e.orientation is None, f"{what}: an orientation appeared")
            frozen(ctx, e, what)
        e = attempt(ctx, lambda: cls.from_positions(pos, orientation=o), ok, "from_positions " + what)
        if e is not None:
            _keeps(ctx, e, given, "from_positions " + what)
        e = attempt(ctx, lambda: cls.from_positions(pos.tolist(), orientation=None if o is None else o.tolist(), dtype=torch.float64), ok, "lists " + what)
        if e is not None:
            ctx.check(e.positions.dtype == torch.float64 and eq(e.positions, pos.double() if pos.ndim > 1 else pos.double().unsqueeze(0)), f"lists {what}: values changed")
        base = cls(T([[0.5, 0.5, 0.5]]), T([1.0, 0.0, 0.0]))
        attempt(ctx, lambda: base.replace(positions=pos, orientation=o), ok, "replace " + what)
        ctx.check(eq(base.positions, T([[0.5, 0.5, 0.5]])), f"replace {what}: original changed")


def _static(case, ctx):
    for rd, sd, md in itertools.product((2, 3), repeat=3):
        room = Room(size=T([3.1, 4.3, 2.7][:rd]), fs=8000)
        s, m = Source(T([[1.0, 2.0, 0.5][:sd]])), MicrophoneArray(T([[1.5, 2.0, 0.5][:md]] * 2))
        ok = rd == sd == md
        a = attempt(ctx, lambda: StaticScene(room=room, sources=s, mics=m), ok, f"StaticScene {rd}{sd}{md}")
        b = attempt(ctx, lambda: Scene(room=room, sources=s, mics=m), ok, f"Scene {rd}{sd}{md}")
        if a and b:
            a.validate()
            b.validate()
            ctx.check(not a.is_dynamic() and not b.is_dynamic(), "static scene claims to be dynamic")
            c = b.to_static_scene()
            ctx.check(isinstance(c, StaticScene) and c.room is room and c.sources is s and c.mics is m, "deprecated scene loses something when converted")
            ctx.check(raises(b.to_dynamic_scene, ValueError), "static Scene converted to dynamic")
            ctx.check(a.room is room and a.sources is s and a.mics is m, "StaticScene does not keep its parts")
            frozen(ctx, a, "StaticScene")
            frozen(ctx, b, "Scene")


def _trajs(n, dim):
    g = torch.arange(1, 200, dtype=torch.float64)
    mk = lambda *s: (g[: math.prod(s)].view(*s) / 10).clone()
    bad = mk(3, n, dim)
    bad[1, 0, 0] = nan
    binf = mk(3, n, dim)
    binf[2, n - 1, dim - 1] = -inf
    out = [
        (mk(3, n, dim), 3, "T3"), (mk(1, n, dim), 1, "T1"), (mk(4, n, dim), 4, "T4"), (mk(3, n, dim).float(), 3, "f32"),
        (torch.arange(3 * n * dim).view(3, n, dim), 3, "int"),
        (mk(3, dim), 3 if n == 1 else None, "rank 2"), (mk(3, n + 1, dim), None, "one more"), (mk(3, n, 5 - dim), None, "other dim"),
        (mk(3, n, dim + 2), None, "bad dim"), (bad, None, "nan"), (binf, None, "inf"), (mk(2, 3, n, dim), None, "rank 4"), (mk(dim), None, "rank 1"),
        (mk(3, 5 - dim), None, "rank 2 other dim"),
    ]
    if n > 1:
        out.append((mk(3, n - 1, dim), None, "one fewer"))
    return out


def _dyn(case, ctx):
    grid = []
    for dim, ns, nm in itertools.product((2, 3), (1, 2), (1, 3)):
        for (a, ta, la), (b, tb, lb) in itertools.product(_trajs(ns, dim), _trajs(nm, dim)):
            grid.append((dim, ns, nm, a, ta, la, b, tb, lb))
    for dim, ns, nm, a, ta, la, b, tb, lb in _part(case, grid):
        room = Room(size=T([3.1, 4.3, 2.7][:dim]), fs=8000)
        s, m = Source(T([[1.0, 2.0, 0.5][:dim]] * ns)), MicrophoneArray(T([[1.5, 2.0, 0.5][:dim]] * nm))
        ok = ta is not None and tb is not None and ta == tb
        what = f"{dim}D {ns}x{nm} source {la} mic {lb}"
        d = attempt(ctx, lambda: DynamicScene(room=room, sources=s, mics=m, src_traj=a, mic_traj=b), ok, "DynamicScene " + what)
        o = attempt(ctx, lambda: Scene(room=room, sources=s, mics=m, src_traj=a, mic_traj=b), ok, "Scene " + what)
        if d is not None:
            d.validate()
            _keeps(ctx, d, {"src_traj": a, "mic_traj": b}, "DynamicScene " + what)
            ctx.check(d.is_dynamic() and d.room is room and d.sources is s and d.mics is m, f"DynamicScene {what}: parts changed")
            frozen(ctx, d, "DynamicScene " + what)
        if d is not None and o is not None:
            o.validate()
            c = o.to_dynamic_scene()
            ctx.check(o.is_dynamic() and eq(c.src_traj, a) and eq(c.mic_traj, b) and c.sources is s and c.mics is m and c.room is room, f"Scene {what}: conversion lost something")
            ctx.check(raises(o.to_static_scene, ValueError), f"dynamic Scene {what} converted to static")
            ctx.check(raises(lambda: Scene(room=room, sources=s, mics=m, src_traj=a), ValueError), f"Scene {what} with one trajectory accepted")
            ctx.check(raises(lambda: Scene(room=room, sources=s, mics=m, mic_traj=b), ValueError), f"Scene {what} with one trajectory accepted")
        for obj in (d, o):  # validation judges what the scene holds now
            for name in ("src_traj", "mic_traj") if obj is not None else ():
                traj = getattr(obj, name)
                if not torch.is_tensor(traj) or not traj.is_floating_point():
                    continue
                for pos in sorted({0, traj.numel() // 2, traj.numel() - 1}):
                    flat = traj.view(-1)
                    old = flat[pos].item()
                    for val in (nan, inf):
                        flat[pos] = val
                        ctx.check(raises(obj.validate, ValueError), f"{type(obj).__name__} {what}: validation passes with {val} written into {name}")
                    flat[pos] = old
                obj.validate()
        for name in ("src_traj", "mic_traj"):  # a trajectory that holds no numbers is refused
            for given in ("x", {"x": 1.0}, object()):
                args = dict(room=room, sources=s, mics=m, **dict(dict(src_traj=a, mic_traj=b), **{name: given}))
                for cls in (DynamicScene, Scene):
                    ctx.check(raises(lambda: cls(**args), TypeError, ValueError, RuntimeError), f"{cls.__name__} {what}: {name} given as {type(given).__name__} accepted")
        other = 5 - dim
        attempt(ctx, lambda: DynamicScene(room=Room(size=T([3.1, 4.3, 2.7][:other]), fs=8000), sources=s, mics=m, src_traj=a, mic_traj=b), False, "wrong room " + what)


def _large(case, ctx):
    """Many entities and many steps, with one bad entry anywhere."""
    n = case["n"]
    ends = sorted({0, 1, n // 3, n // 2, n - 2, n - 1})
    for dim in (2, 3):
        pos = (torch.arange(n * dim, dtype=torch.float64).view(n, dim) % 17) / 10 + 0.1
        room = Room(size=T([3.1, 4.3, 2.7][:dim]), fs=8000)
        for cls in (Source, MicrophoneArray):
            what = f"{cls.__name__} of {n} in {dim}D"
            for ori in (None, pos.clone(), pos[0].clone()):
                e = attempt(ctx, lambda: cls(pos, ori), True, what)
                if e is not None:
                    _keeps(ctx, e, {"positions": pos, **({} if ori is None else {"orientation": ori})}, what)
            for at, axis, val in itertools.product(ends, range(dim), (nan, inf, -inf)):
                bad = pos.clone()
                bad[at, axis] = val
                attempt(ctx, lambda: cls(bad, None), False, f"{what} with {val} at {at}")
                attempt(ctx, lambda: cls(pos, bad), False, f"{what} facing {val} at {at}")
                attempt(ctx, lambda: cls(pos[:2], None).replace(positions=bad), False, f"{what} replaced with {val} at {at}")
            for k in (n - 1, n + 1):
                attempt(ctx, lambda: cls(pos, torch.ones(k, dim)), False, f"{what} with {k} orientations")
        for steps, ns, nm in ((n, 1, 2), (n, 2, 1), (2, n, 1), (2, 1, n)):
            s, m = Source((pos % 1.3 + 0.2).repeat(2, 1)[:ns]), MicrophoneArray((pos % 0.9 + 0.3).repeat(2, 1)[:nm])
            a, b = s.positions.repeat(steps, 1, 1), m.positions.repeat(steps, 1, 1)
            what = f"{steps} steps of {ns} sources and {nm} mics in {dim}D"
            for cls in (DynamicScene, Scene):
                d = attempt(ctx, lambda: cls(room=room, sources=s, mics=m, src_traj=a, mic_traj=b), True, f"{cls.__name__} {what}")
                if d is not None:
                    _keeps(ctx, d, {"src_traj": a, "mic_traj": b}, f"{cls.__name__} {what}")
                for which, t in (("src_traj", a), ("mic_traj", b)):
                    for step, ent in itertools.product(sorted({0, steps // 2, steps - 1}), sorted({0, t.shape[1] // 2, t.shape[1] - 1})):
                        bad = t.clone()
                        bad[step, ent, dim - 1] = nan
                        attempt(ctx, lambda: cls(room=room, sources=s, mics=m, **{"src_traj": a, "mic_traj": b, which: bad}), False, f"{cls.__name__} {what}: NaN in {which} at {step}, {ent}")
                    for odd in (t[:-1], t[:, :-1], torch.cat([t, t[:1]]), torch.cat([t, t[:, :1]], 1)):
                        attempt(ctx, lambda: cls(room=room, sources=s, mics=m, **{"src_traj": a, "mic_traj": b, which: odd}), False, f"{cls.__name__} {what}: {which} of shape {tuple(odd.shape)}")


def _cfg(case, ctx):
    for idx in _part(case, _combos(CFG, case["depth"])):
        vals = {f: CFG[f][i][0] for f, i in idx.items()}
        ok = all(CFG[f][i][1] for f, i in idx.items())
        tag = str(vals)
        c = SimulationConfig(**vals)
        exc = raises(c.validate, ValueError)
        ctx.check((exc is None) == ok, f"config {tag}: validate {'refuses: %s' % exc if exc else 'accepts'}")
        full = {f: CFG[f][idx.get(f, 0)][0] for f in CFG}
        for f, v in full.items():
            ctx.check(getattr(c, f) == v or v != v, f"config {tag}: {f} is {getattr(c, f)!r}")
        frozen(ctx, c, f"config {tag}")
        base = default_config()
        r = attempt(ctx, lambda: base.replace(**vals), ok, f"config.replace {tag}")
        ctx.check(base == default_config() == SimulationConfig(), f"config.replace {tag}: original or default changed")
        if r is not None:
            ctx.check(r == c, f"config.replace {tag}: other fields changed")
        ctx.count()


def _sim(case, ctx):
    for idx in _part(case, _combos(SIM, case["depth"] + 1)):
        full = {f: SIM[f][idx.get(f, 0)][0] for f in SIM}
        ok = all(SIM[f][i][1] for f, i in idx.items()) and not (full["tmax"] is None and full["nsample"] is None)
        s = attempt(ctx, lambda: ISMSimulator(**full), ok, f"ISMSimulator {idx and {f: full[f] for f in idx}}")
        if s is not None:
            for f, v in full.items():
                ctx.check(getattr(s, f) == v, f"ISMSimulator keeps {getattr(s, f)!r} for {f}={v!r}")
            frozen(ctx, s, "ISMSimulator")
        base = ISMSimulator(max_order=2, nsample=10)
        attempt(ctx, lambda: dataclasses.replace(base, **{f: full[f] for f in idx}), ok, f"replace ISMSimulator { {f: full[f] for f in idx} }")
