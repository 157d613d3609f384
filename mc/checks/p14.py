"""P14: Sabine estimates and sufficient image counts, compared with the closed formulas and with the images themselves."""

import itertools
import math

import torch

from mc import ref
from mc.core import raises

from torchrir.util import (
    attenuation_db_to_time_sabine,
    estimate_beta_from_t60,
    estimate_image_counts_from_tmax,
    estimate_t60_from_beta,
)

ID = "P14"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of rooms, coefficient vectors, durations and input representations on the real estimators against Sabine's formula and explicit image positions"
NOTE = (
    "Every wall is varied on its own and together with every other wall, so a wrong area for one wall shows; image counts are judged by "
    "placing the nearest excluded images for source and microphone positions on a grid including the walls."
)
RULE = (
    "all rooms (2D, 3D, permuted sides) x coefficient vectors in {0, .5, .9, 1}^walls (thorough {0,.3,.5,.9,1}) x dtypes and containers; "
    "T60s over a grid including both sides of the clipping threshold; durations at, just below and just above multiples of the crossing time; "
    "all invalid sizes, counts, non-positive and NaN scalars, room sides and sound speeds. Non-trivial: distinct (room, argument, result)."
)
ASSUMPTIONS = ["rounding tolerance follows the dtype used for the coefficients"]

ROOMS = [(6.0, 4.0, 3.0), (4.0, 3.0, 6.0), (3.0, 6.0, 4.0), (2.5, 7.25, 1.75), (10.0, 10.0, 10.0), (1.0, 20.0, 2.0), (6.0, 4.0), (4.0, 6.0), (3.5, 3.5), (0.5, 12.0)]
FORMS = ["f64", "f32", "list", "tuple", "int"]


def cases(tier):
    for i in range(len(ROOMS)):
        for f in FORMS:
            yield dict(k="beta", room=i, form=f)
            yield dict(k="t60", room=i, form=f)
            yield dict(k="counts", room=i, form=f)
    yield dict(k="att")
    yield dict(k="refuse")


def _size(i, form):
    r = ROOMS[i]
    if form == "int":
        r = tuple(float(math.ceil(v)) for v in r)
        return r, torch.tensor([int(v) for v in r]), 1e-6, torch.float32
    if form == "f64":
        return r, torch.tensor(r, dtype=torch.float64), 1e-12, torch.float64
    if form == "f32":
        return r, torch.tensor(r, dtype=torch.float32), 1e-6, torch.float32
    return r, (list(r) if form == "list" else tuple(r)), 1e-6, torch.float32


def areas(r):
    x, y, z = (*r, 1.0)[:3]
    return ([y * z] * 2 + [x * z] * 2 + [x * y] * 2)[: 2 * len(r)]


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


def _beta(case, ctx):
    r, size, eps, dt = _size(case["room"], case["form"])
    vals = (0.0, 0.5, 0.9, 1.0) if ctx.tier == "quick" else (0.0, 0.3, 0.5, 0.9, 1.0)
    ar, vol = areas(r), math.prod(r)
    for b in itertools.product(vals, repeat=2 * len(r)):
        if ctx.tier == "quick" and len(r) == 3 and len(set(b)) > 3:
            continue
        absorb = sum(a * (1 - v * v) for a, v in zip(ar, b))
        arg = torch.tensor(b, dtype=torch.float64 if case["form"] == "f64" else torch.float32) if case["form"] not in ("list", "tuple") else list(b)
        got = estimate_t60_from_beta(size, arg)
        ctx.count()
        if absorb == 0:
            ok = got == math.inf
        else:
            ok = isinstance(got, float) and abs(got - 0.161 * vol / absorb) <= 20 * eps * got
        ctx.note((r, b, round(got, 6) if got < 1e6 else "inf"))
        if not ctx.check(ok, f"room {r} beta {b}: T60 {got}, Sabine gives {0.161 * vol / absorb if absorb else 'inf'}"):
            return
    # all walls, or all but one, at coefficients from hardly any to almost complete reflection
    for v in (1e-6, 1e-3, 0.05, 0.99, 0.998, 0.999, 0.9995, 0.9999):
        for w, k in itertools.product((v, 0.0, 0.5, 1.0), range(2 * len(r))):
            b = [v] * (2 * len(r))
            b[k] = w
            f64 = case["form"] == "f64"
            arg = torch.tensor(b, dtype=torch.float64 if f64 else torch.float32)
            absorb = sum(a * (1 - float(x) ** 2) for a, x in zip(ar, arg))
            got = estimate_t60_from_beta(size, arg)
            ctx.count()
            ctx.note((r, tuple(b), round(got, 6)))
            want = 0.161 * vol / absorb
            tol = 1e-12 if f64 else 3e-7 * sum(ar) / absorb + 1e-6
            if not ctx.check(abs(got - want) <= 20 * tol * want, f"room {r} beta {b}: T60 {got}, Sabine gives {want}"):
                return
    # next to lossless walls: the decay time is long but finite
    for v in (1e-7, 1e-9, 1e-12, 1e-15) if case["form"] == "f64" else ():
        b = [1.0] * (2 * len(r))
        b[1] = 1.0 - v
        absorb = ar[1] * (1 - b[1] * b[1])
        got = estimate_t60_from_beta(size, torch.tensor(b, dtype=torch.float64))
        ctx.count()
        want = 0.161 * vol / absorb
        if not ctx.check(abs(got - want) <= 20 * (1e-15 / v + 1e-12) * want, f"room {r} beta {b}: T60 {got}, Sabine gives {want}"):
            return
    for dt2 in (torch.float32, torch.float64):
        b = [0.9] * (2 * len(r))
        got = estimate_t60_from_beta(size, torch.tensor(b), dtype=dt2)
        ctx.check(abs(got - 0.161 * vol / (sum(ar) * 0.19)) < 1e-5 * got, f"room {r} dtype {dt2}: T60 {got}")
    for n in (0, 1, 4, 5, 6, 7):
        if n != 2 * len(r):
            ctx.check(raises(lambda: estimate_t60_from_beta(size, torch.full((n,), 0.5)), ValueError), f"room {r}: {n} coefficients accepted")


def _t60(case, ctx):
    r, size, eps, dt = _size(case["room"], case["form"])
    ar, vol = sum(areas(r)), math.prod(r)
    edge = 0.161 * vol / ar
    grid = [0.01, 0.05, 0.1, 0.2, 0.3, 0.5, 0.8, 1.0, 1.5, 2.0, 5.0, 30.0, 100.0, 1e3, 1e5] + [edge * f for f in (0.5, 0.99, 1.0, 1.0005, 1.0011, 1.01, 1.1, 1.5, 2, 3)]
    for t in grid:
        alpha = min(edge / t, 0.999)
        for want_dt in (None, torch.float32, torch.float64):
            got = estimate_beta_from_t60(size, t, dtype=want_dt)
            ctx.count()
            e = 1e-6 if (want_dt or dt) == torch.float32 else 1e-12
            if want_dt is not None and case["form"] == "f32":
                e = 1e-6
            ok = tuple(got.shape) == (2 * len(r),) and got.dtype == (want_dt or dt) and bool((got - got[0] == 0).all())
            b = float(got[0]) if ok else math.nan
            # compare through the absorption, which is what the formula fixes
            ok = ok and abs((1 - b * b) - alpha) <= 4 * e + 4 * e * alpha and 0 <= b <= 1
            if not ctx.check(ok, f"room {r} T60 {t} dtype {want_dt}: coefficients {got.tolist()}, Sabine absorption {alpha}"):
                return
            ctx.note((r, t, round(b, 6)))
            if edge / t < 0.999:
                back = estimate_t60_from_beta(size, got)
                e2 = e if case["form"] == "f64" else 1e-6
                if not ctx.check(abs(back - t) <= t * (8 * e2 / alpha + 20 * e2), f"room {r}: T60 {t} comes back as {back}"):
                    return
    for b in (0.2, 0.5, 0.75, 0.9, 0.99):
        vec = torch.full((2 * len(r),), b, dtype=torch.float64 if case["form"] == "f64" else torch.float32)
        t = estimate_t60_from_beta(size, vec)
        back = estimate_beta_from_t60(size, t)
        ctx.check(float((back.double() - b).abs().max()) < 1e-4, f"room {r}: coefficient {b} comes back as {back.tolist()}")


def _counts(case, ctx):
    r, size, eps, dt = _size(case["room"], case["form"])
    eps = max(eps, 1e-6)
    for c in (343.0, 340.0, 1500.0):
        durations = [0.001, 0.01, 0.05, 0.1, 0.3, 1.0]
        for side in sorted(set(r)):
            durations += [side / c * k * f for k in (1, 2, 3, 7) for f in (0.999, 1.0, 1.001)]
        for tmax in durations:
            got = estimate_image_counts_from_tmax(tmax, size, c) if c != 343.0 else estimate_image_counts_from_tmax(tmax, size)
            ctx.count()
            if not ctx.check(tuple(got.shape) == (len(r),) and not got.is_floating_point() and int(got.min()) >= 1, f"room {r}: image counts {got}"):
                return
            for a, n in enumerate(got.tolist()):
                for idx in (n + 1, -n - 1, n + 2, -n - 2):
                    for s, m in itertools.product((0.0, 0.3, 1.0), repeat=2):
                        x, _ = ref.axis_images(idx, r[a], s * r[a], 1.0, 1.0)
                        t = abs(x - m * r[a]) / c
                        if t < tmax * (1 - 4 * eps):
                            return ctx.fail(f"room {r} c {c}: within {tmax} s image {idx} on axis {a} arrives at {t} but only {n} are counted")
            ctx.note((r, c, tmax, tuple(got.tolist())))


def _att(case, ctx):
    for att, t in itertools.product((1e-3, 1, 15.0, 30, 59.9, 60, 60.0, 61, 120.0, 1e3), (1e-3, 0.1, 0.5, 1, 2.5, 10)):
        got = attenuation_db_to_time_sabine(att, t)
        ctx.count()
        ctx.check(abs(got - att * t / 60) <= 1e-12 * att * t, f"{att} dB at T60 {t}: {got}")
        ctx.check(attenuation_db_to_time_sabine(att_db=att, t60=t) == got, "keyword call differs")
        ctx.note((att, t, got))


def _refuse(case, ctx):
    good = torch.tensor([6.0, 4.0, 3.0])
    for bad in (0, 0.0, -0.0, -1e-9, -1, -math.inf, math.nan):
        for what, fn in (
            ("estimate_beta_from_t60", lambda: estimate_beta_from_t60(good, bad)),
            ("attenuation t60", lambda: attenuation_db_to_time_sabine(60.0, bad)),
            ("attenuation dB", lambda: attenuation_db_to_time_sabine(bad, 0.5)),
            ("image counts", lambda: estimate_image_counts_from_tmax(bad, good)),
            ("both", lambda: attenuation_db_to_time_sabine(bad, bad)),
            ("speed of sound", lambda: estimate_image_counts_from_tmax(0.3, good, bad)),
            *[
                (f"{name} side {a} of {n}", lambda f=f, a=a, n=n: f(torch.tensor([bad if k == a else 3.0 for k in range(n)], dtype=torch.float64)))
                for name, f in (
                    ("beta", lambda s: estimate_beta_from_t60(s, 0.5)),
                    ("t60", lambda s: estimate_t60_from_beta(s, torch.full((2 * s.numel(),), 0.5))),
                    ("counts", lambda s: estimate_image_counts_from_tmax(0.5, s)),
                )
                for n in (2, 3)
                for a in range(n)
            ],
        ):
            ctx.count()
            ctx.check(raises(fn, ValueError), f"{what}: non-positive {bad} accepted")
            ctx.note((what, bad))
    for size in ([1.0], [1.0, 2.0, 3.0, 4.0], [[1.0, 2.0, 3.0]], [[1.0, 2.0]], 3.0, []):
        s = torch.tensor(size)
        for what, fn in (
            ("beta", lambda: estimate_beta_from_t60(s, 0.5)),
            ("t60", lambda: estimate_t60_from_beta(s, torch.full((6,), 0.5))),
            ("t60 4", lambda: estimate_t60_from_beta(s, torch.full((4,), 0.5))),
            ("counts", lambda: estimate_image_counts_from_tmax(0.5, s)),
        ):
            ctx.count()
            ctx.check(raises(fn, ValueError), f"{what}: room size {size} accepted")
            ctx.note((what, str(size)))
