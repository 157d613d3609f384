"""P16: sampling helpers under every sequence of generator answers; clamping and trajectories on grids."""

import itertools
import random

import numpy as np
import torch

from mc.core import explore, raises

from torchrir.geometry import clamp_positions, linear_trajectory, sample_positions, sample_positions_min_distance
from torchrir.geometry import sampling

sample_positions_with_z_range = sampling.sample_positions_with_z_range

ID = "P16"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive exploration of the choice tree of a stubbed random generator through the real sampling helpers, plus exhaustive grids for clamping and interpolation"
NOTE = (
    "The generator handed to the real code answers each draw with a low, middle or high quantile; every path of the resulting tree (all draws, all "
    "attempts, accepted or rejected) is executed and the returned positions or error judged."
)
RULE = (
    "every answer sequence over {0, .5, 1-2^-53} for up to 8 draws and over {0, 1-2^-53} for longer trees, crossed with rooms, margins (including "
    "exactly half the room and infeasible ones), height ranges (feasible, equal bounds, infeasible) and distances; clamp grids; trajectories of 1..33 steps. "
    "Non-trivial: distinct (setting, outcome positions)."
)
ASSUMPTIONS = ["the generator is used through random.Random's public methods", "positions are float32, so bounds hold to 1e-5 m"]

ROOMS = [(4.0, 3.0, 2.5), (2.0, 6.0, 3.0), (1.0, 3.0, 2.0), (4.0, 3.0), (1.0, 1.0)]
ZR = [None, (1.5, 1.8), (0.0, 9.0), (1.2, 1.2), (2.3, 2.9), (0.1, 0.3), (1.8, 1.5)]
LO, MID, HI = 0.0, 0.5, 1 - 2.0**-53


class Rng(random.Random):
    """Every draw is a choice point (subclassing keeps uniform, choice, shuffle, sample working on top of it)."""

    def __new__(cls, *_):
        return super().__new__(cls)

    def __init__(self, ch, answers):
        super().__init__(0)
        self.ch, self.answers = ch, answers

    def random(self):
        return self.answers[self.ch.pick(len(self.answers))]


def cases(tier):
    for r in range(len(ROOMS)):
        for m in (None, 0.5, 0.0, 0.1, 0.4, 0.75, 2.0):
            yield dict(k="plain", room=r, margin=m)
            for z in range(len(ZR)):
                yield dict(k="zrange", room=r, margin=m, z=z)
        for m, z in itertools.product((None, 0.0, 0.4, 0.75), range(len(ZR))):
            for d in (0.0, 0.8, 1.3, 50.0):
                yield dict(k="dist", room=r, margin=m, z=z, d=d)
    yield dict(k="seed")
    for r in range(len(ROOMS)):
        yield dict(k="clamp", room=r)
    yield dict(k="line")
    for n in (1, 9, 33, 129, 1025, 4000):
        yield dict(k="large", n=n)
    yield dict(k="refuse")


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


def _feasible(room, m):
    return all(v - 2 * m >= -1e-9 for v in room)


def _zfeas(room, m, zr):
    lo, hi = max(m, zr[0]), min(room[2] - m, zr[1])
    return (lo, hi) if hi >= lo else None


def judge(ctx, what, got, num, room, m, z=None, center=None, dist=0.0):
    ctx.count()
    if not ctx.check(tuple(got.shape) == (num, len(room)), f"{what}: {tuple(got.shape)} instead of {num} positions"):
        return
    p = got.double().numpy()
    lo, hi = p - (m - 1e-5), np.array(room) - m + 1e-5 - p
    ok = np.isfinite(p).all() and (lo >= 0).all() and (hi >= 0).all()
    ctx.check(ok, f"{what}: {p.tolist()} not {m} away from every wall of {room}")
    if z is not None:
        ctx.check((p[:, 2] >= z[0] - 1e-5).all() and (p[:, 2] <= z[1] + 1e-5).all(), f"{what}: heights {p[:, 2].tolist()} outside {z}")
    if center is not None:
        ctx.check((np.linalg.norm(p - center, axis=1) >= dist - 1e-5).all(), f"{what}: {p.tolist()} closer than {dist} to {center}")
    ctx.note((what, np.round(p, 4).tobytes()))


def _go(ctx, what, call, answers, ok_error, verdict):
    """Explore the whole tree of one setting."""
    for ch, out in explore(lambda ch: _attempt(call, Rng(ch, answers))):
        ctx.transitions += len(ch.trace)
        ctx.traces += 1
        ctx.state((what, tuple(ch.trace)))
        if isinstance(out, Exception):
            ctx.count()
            ctx.note((what, type(out).__name__, len(ch.trace)))
            if not ctx.check(ok_error(out, ch), f"{what}: {type(out).__name__}: {out} for draws {[v for v, _ in ch.trace]}"):
                return
        elif verdict(out, ch) is False:
            return
        if ctx.messages:
            return


def _attempt(call, rng):
    try:
        return call(rng)
    except (ValueError, RuntimeError) as exc:
        return exc


def _kw(m):
    return {} if m is None else dict(margin=m)


def _plain(case, ctx):
    room, m = ROOMS[case["room"]], case["margin"]
    mm = 0.5 if m is None else m
    feas = _feasible(room, mm)
    for num in (1, 2):
        for size in (torch.tensor(room), torch.tensor(room, dtype=torch.float64)):
            what = f"sample_positions room {room} margin {m} num {num}"
            _go(ctx, what, lambda rng: sample_positions(num=num, room_size=size, rng=rng, **_kw(m)), (LO, MID, HI),
                lambda e, ch: not feas and isinstance(e, ValueError),
                lambda out, ch: ctx.check(feas, f"{what}: infeasible margin gave {out.tolist()}") and judge(ctx, what, out, num, room, mm))


def _zrange(case, ctx):
    room, m, zr = ROOMS[case["room"]], case["margin"], ZR[case["z"]]
    mm = 0.5 if m is None else m
    feas = _feasible(room, mm)
    kw = _kw(m) if zr is None else dict(z_range=zr, **_kw(m))
    z = _zfeas(room, mm, zr or (1.5, 1.8)) if len(room) == 3 else None
    for num in (1, 2):
        what = f"with_z_range room {room} margin {m} z {zr} num {num}"
        _go(ctx, what, lambda rng: sample_positions_with_z_range(num=num, room_size=torch.tensor(room), rng=rng, **kw), (LO, MID, HI),
            lambda e, ch: not feas and isinstance(e, ValueError),
            lambda out, ch: ctx.check(feas, f"{what}: infeasible margin gave {out.tolist()}") and judge(ctx, what, out, num, room, mm, z))


def _dist(case, ctx):
    room, m, zr, d = ROOMS[case["room"]], case["margin"], ZR[case["z"]], case["d"]
    mm = 0.5 if m is None else m
    feas = _feasible(room, mm)
    center = tuple(v * f for v, f in zip(room, (0.5, 0.4, 0.5)))
    z = _zfeas(room, mm, zr) if len(room) == 3 and zr is not None else None
    per = len(room) + (1 if z else 0)
    plans = [(1, 1), (1, 2), (2, 2)] + ([(2, 3), (1, 3)] if case["margin"] is None or ctx.tier != "quick" else [])
    for num, att in plans:
        answers = (LO, MID, HI) if per * att <= (6 if ctx.tier == "quick" else 8) else (LO, HI)
        what = f"min_distance room {room} margin {m} z {zr} d {d} num {num} attempts {att}"

        def verdict(out, ch):
            if not ctx.check(feas, f"{what}: infeasible margin gave {out.tolist()}"):
                return
            judge(ctx, what, out, num, room, mm, z, np.array(center), d)

        def err(e, ch):
            if not feas:
                return isinstance(e, ValueError)
            if answers == (LO, HI):  # every candidate is a corner: if all corners are far enough, giving up is wrong
                ends = [(mm, v - mm) for v in room]
                if z:
                    ends[2] = z
                if min(np.linalg.norm(np.array(q) - center) for q in itertools.product(*ends)) >= d + 1e-5:
                    return False
            return isinstance(e, RuntimeError) and d > 0 and len(ch.trace) >= att * len(room)

        _go(ctx, what, lambda rng: sample_positions_min_distance(
            num=num, room_size=torch.tensor(room), rng=rng, center=torch.tensor(center, dtype=torch.float64), min_distance=d,
            z_range=zr, max_attempts=att, **_kw(m)), answers, err, verdict)
    if feas and d == 50.0:
        for num in (1, 3):
            ctx.check(raises(lambda: sample_positions_min_distance(num=num, room_size=torch.tensor(room), rng=random.Random(1), center=torch.tensor(center), min_distance=d, z_range=zr, **_kw(m)),
                             RuntimeError), f"impossible distance {d} in {room} succeeded")


def _seed(case, ctx):
    size = torch.tensor([4.0, 3.0, 2.5])
    for seed in range(30):
        outs = []
        for k in range(2):
            random.seed(k)
            torch.manual_seed(k)
            np.random.seed(k)
            rng = random.Random(seed)
            a = sample_positions(num=3, room_size=size, rng=rng)
            b = sample_positions_with_z_range(num=3, room_size=size, rng=rng)
            c = sample_positions_min_distance(num=3, room_size=size, rng=rng, center=a[0], min_distance=0.5)
            outs.append(torch.cat([a, b, c]))
            judge(ctx, f"seed {seed}", a, 3, (4.0, 3.0, 2.5), 0.5)
            judge(ctx, f"seed {seed}", b, 3, (4.0, 3.0, 2.5), 0.5, (1.5, 1.8))
            judge(ctx, f"seed {seed}", c, 3, (4.0, 3.0, 2.5), 0.5, (1.5, 1.8), a[0].double().numpy(), 0.5)
        ctx.check(torch.equal(*outs), f"seed {seed} gives different positions")


def _clamp(case, ctx):
    room = ROOMS[case["room"]]
    dim = len(room)
    for m in (None, 0.0, 0.1, 0.25, 0.45):
        mm = 0.1 if m is None else m
        axis_vals = [[-5.0, -0.01, 0.0, mm - 0.01, mm, mm + 0.01, r / 2, r - mm - 0.01, r - mm, r - mm + 0.01, r, r + 7.0] for r in room]
        if dim == 3 and ctx.tier == "quick":
            axis_vals = [v[i::2] for i, v in zip((0, 1, 0), axis_vals)]
        grid = torch.tensor(list(itertools.product(*axis_vals)), dtype=torch.float64)
        lo, hi = torch.full((dim,), mm, dtype=torch.float64), torch.tensor(room, dtype=torch.float64) - mm
        want = torch.minimum(torch.maximum(grid, lo), hi)
        inside = ((grid > lo + 1e-6) & (grid < hi - 1e-6)).all(1)
        for dt, form in itertools.product((torch.float32, torch.float64), ("tensor", "f64", "list")):
            size = torch.tensor(room) if form == "tensor" else torch.tensor(room, dtype=torch.float64) if form == "f64" else list(room)
            x = grid.to(dt)
            keep = x.clone()
            got = clamp_positions(x, size, **_kw(m))
            ctx.count(len(grid))
            ctx.check(torch.equal(x, keep), "clamp_positions changed its input")
            ok = got.shape == x.shape and float((got.double() - want).abs().max()) < 1e-5 and torch.equal(got[inside].double(), x[inside].double())
            ctx.check(ok, f"room {room} margin {m} {dt} {form}: clamped positions wrong")
            one = clamp_positions(x[3], size, **_kw(m))
            three = clamp_positions(x.view(-1, 2, 1, dim)[:, :, 0], size, **_kw(m)) if len(x) % 2 == 0 else got.view(-1, 1, dim)
            ctx.check(torch.equal(one, got[3]) and torch.equal(three.reshape(-1, dim), got), f"room {room} margin {m}: ranks differ")
            ctx.note((room, m, str(dt), form, np.round(got.double().numpy(), 4).tobytes()))
    ints = clamp_positions(torch.tensor([[0] * dim, [9] * dim, [1] * dim]), torch.tensor(room), margin=0.25)
    want = torch.stack([torch.full((dim,), 0.25), torch.tensor(room) - 0.25, torch.minimum(torch.ones(dim), torch.tensor(room) - 0.25)])
    ctx.check(float((ints - want).abs().max()) < 1e-6, f"integer positions clamp to {ints.tolist()}")
    ii = clamp_positions(torch.tensor([[0.0] * dim, [9.0] * dim]), torch.tensor([int(v) for v in room]), margin=0.25)
    ctx.check(float((ii - torch.stack([torch.full((dim,), 0.25), torch.tensor([int(v) - 0.25 for v in room])])).abs().max()) < 1e-6, f"integer room clamps to {ii.tolist()}")


def _large(case, ctx):
    """Many positions in rooms from a cupboard to a stadium; long trajectories."""
    n = case["n"]
    for room, m, zr, d in (
        ((300.0, 80.0, 40.0), 0.5, (30.0, 39.0), 60.0), ((0.6, 0.5, 0.4), 0.05, (0.1, 0.11), 0.1), ((300.0, 80.0), 2.0, None, 35.0), ((0.3, 0.2), 0.01, None, 0.05), ((6.0, 5.0, 3.0), 0.5, (1.5, 1.5), 1.0),
    ):
        r = torch.tensor(room)
        c = [x / 2 for x in room]
        for seed in (0, 1):
            what = f"{n} positions in {room}"
            judge(ctx, what, sample_positions(num=n, room_size=r, rng=random.Random(seed), margin=m), n, room, m)
            kw = {} if zr is None else dict(z_range=zr)
            judge(ctx, what + " heights", sampling.sample_positions_with_z_range(num=n, room_size=r, rng=random.Random(seed), margin=m, **kw), n, room, m, z=zr)
            got = sample_positions_min_distance(num=n, room_size=r, rng=random.Random(seed), margin=m, center=torch.tensor(c), min_distance=d, max_attempts=100 * n, z_range=zr)
            judge(ctx, what + " distance", got, n, room, m, z=zr, center=np.array(c), dist=d)
            for att in sorted({0, 1, n // 2, n - 1}):
                ctx.check(raises(lambda: sample_positions_min_distance(num=n, room_size=r, rng=random.Random(seed), margin=m, center=torch.tensor(c), min_distance=d, max_attempts=att, z_range=zr), RuntimeError, ValueError) or att >= n, f"{what}: found in {att} attempts")
    for dt, eps in ((torch.float32, 4e-7), (torch.float64, 1e-15)):
        for a, b in (((0.1, 0.2, 0.3), (5.3, -2.7, 1.9)), ((-1000.0, 3.0, 0.0), (1000.0, 3.0, 1e-3))):
            a, b = torch.tensor(a, dtype=dt), torch.tensor(b, dtype=dt)
            got = linear_trajectory(a, b, n)
            scale = 1 + float(torch.maximum(a.abs(), b.abs()).max())
            want = a.double() + (b.double() - a.double()) * (torch.arange(n, dtype=torch.float64)[:, None] / max(1, n - 1))
            ctx.count()
            ctx.check(tuple(got.shape) == (n, 3) and float((got.double() - want).abs().max()) <= 8 * eps * scale, f"{a.tolist()} -> {b.tolist()} in {n} steps: off the line")


def _line(case, ctx):
    for dim, dt in itertools.product((2, 3), (torch.float32, torch.float64)):
        eps = 4e-7 if dt == torch.float32 else 1e-15
        pts = [torch.tensor(p[:dim], dtype=dt) for p in ((0.1, 0.2, 0.3), (5.3, -2.7, 1.9), (1.0, 2.0, 3.0), (1e-3, 100.0, 7.0))]
        pts += [torch.stack([pts[0], pts[1]]), torch.stack([pts[3], pts[2]])]
        for a, b in itertools.product(pts, repeat=2):
            if a.ndim != b.ndim:
                continue
            for steps in range(1, 34):
                got = linear_trajectory(a, b, steps)
                ctx.count()
                scale = 1 + float(torch.maximum(a.abs(), b.abs()).max())
                ok = tuple(got.shape) == (steps, *a.shape) and got.dtype == dt and bool(torch.isfinite(got).all())
                ok = ok and float((got[0] - a).abs().max()) <= eps * scale and (steps == 1 or float((got[-1] - b).abs().max()) <= 4 * eps * scale)
                if ok and steps > 1:
                    inc = (b.double() - a.double()) / (steps - 1)
                    ok = float(((got[1:].double() - got[:-1].double()) - inc).abs().max()) <= 8 * eps * scale
                ctx.note((dim, str(dt), steps, np.round(got.double().numpy(), 4).tobytes()))
                if not ctx.check(ok, f"{a.tolist()} -> {b.tolist()} in {steps} steps: {got.tolist()}"):
                    return


def _refuse(case, ctx):
    for room, center in (((4.0, 3.0, 2.5), (1.0, 1.0)), ((4.0, 3.0), (1.0, 1.0, 1.0)), ((4.0, 3.0, 2.5), (1.0,))):
        ctx.check(raises(lambda: sample_positions_min_distance(num=1, room_size=torch.tensor(room), rng=random.Random(0), center=torch.tensor(center), min_distance=0.1), ValueError),
                  f"centre {center} accepted in room {room}")
        ctx.note((room, center))
