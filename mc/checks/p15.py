"""P15: microphone array builders against the documented geometry."""

import itertools
import math

import numpy as np
import torch

from mc.core import raises
from mc.eigenmike import EM32_PHI, EM32_THETA, EM64_PHI, EM64_THETA

from torchrir.geometry import arrays

ID = "P15"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of every layout, count, axis, plane, normal, direction, centre, dtype and container on the real builders against geometric definitions"
NOTE = (
    "Layouts are judged by their geometric definition (spacing, angles, distances, edge degrees of the solid), the Eigenmikes by the published "
    "capsule angles; the normals and directions include all signed axes, all octants, near-axis vectors and three magnitudes."
)
RULE = (
    "counts 1..9, 16, 33; all axes; directions and normals in {-1,0,1}^3 minus 0 plus near-axis and generic vectors, each at three magnitudes; "
    "all centres x containers x dtypes; solids, azimuth offsets, radii; all invalid arguments. Non-trivial: distinct (layout, arguments, positions)."
)
ASSUMPTIONS = ["direction and normal magnitudes within [1e-3, 1e3]"]

CENTERS3 = [(0.0, 0.0, 0.0), (1.5, -2.25, 3.0), (1.0, 2.0, 3.0), (10.125, 20.5, 0.75)]
CENTERS2 = [(0.0, 0.0), (1.5, -2.25), (3.0, 2.0)]
FORMS = ["list", "tuple", "int", "f32", "f64", "list64", "f32as64", "f64as32"]
COUNTS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 33]
DIRS3 = [v for v in itertools.product((-1.0, 0.0, 1.0), repeat=3) if any(v)] + [
    (1.0, 1e-3, 0.0), (-1.0, 1e-3, 0.0), (1.0, 1e-7, 0.0), (-1.0, 0.0, 1e-6), (1e-5, 1.0, 0.0), (0.3, -0.4, 0.87), (-0.9, 0.1, -0.2), (0.99, 0.1, 0.1)]
DIRS2 = [v for v in itertools.product((-1.0, 0.0, 1.0), repeat=2) if any(v)] + [(0.3, -0.7), (1e-4, 1.0)]
SOLIDS = {  # vertices, neighbours per vertex, edge / radius
    "tetrahedron": (4, 3, math.sqrt(8 / 3)),
    "cube": (8, 3, 2 / math.sqrt(3)),
    "octahedron": (6, 4, math.sqrt(2)),
    "dodecahedron": (20, 3, 4 / (math.sqrt(3) * (1 + math.sqrt(5)))),
    "icosahedron": (12, 5, 1 / math.sin(2 * math.pi / 5)),
}


def cases(tier):
    for f in FORMS:
        for i in range(len(CENTERS3)):
            yield dict(k="linear", c=i, form=f, dim=3)
            yield dict(k="circ", c=i, form=f, dim=3)
            yield dict(k="normal", c=i, form=f)
            yield dict(k="solid", c=i, form=f)
            yield dict(k="eigen", c=i, form=f)
            yield dict(k="binaural", c=i, form=f, dim=3)
        for i in range(len(CENTERS2)):
            yield dict(k="linear", c=i, form=f, dim=2)
            yield dict(k="circ", c=i, form=f, dim=2)
            yield dict(k="binaural", c=i, form=f, dim=2)
    for f in FORMS:
        yield dict(k="scale", c=1, form=f)
    yield dict(k="refuse")


def _center(case):
    """centre value, builder argument, extra keywords, expected dtype, tolerance"""
    c = (CENTERS2 if case.get("dim") == 2 else CENTERS3)[case["c"]]
    f = case["form"]
    kw, dt, eps = {}, torch.float32, 4e-6
    if f == "int":
        c = tuple(float(int(v)) for v in c)
        arg = torch.tensor([int(v) for v in c])
    elif f in ("list", "tuple"):
        arg = list(c) if f == "list" else tuple(c)
    elif f == "list64":
        arg, kw, dt, eps = list(c), dict(dtype=torch.float64), torch.float64, 1e-12
    elif f == "f32":
        arg = torch.tensor(c)
    elif f == "f64":
        arg, dt, eps = torch.tensor(c, dtype=torch.float64), torch.float64, 1e-12
    elif f == "f32as64":
        arg, kw, dt, eps = torch.tensor(c), dict(dtype=torch.float64), torch.float64, 1e-12
    else:
        arg, kw = torch.tensor(c, dtype=torch.float64), dict(dtype=torch.float32)
    return np.array(c), arg, kw, dt, eps


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


def basics(ctx, what, got, n, dim, dt):
    ctx.count()
    ok = tuple(got.shape) == (n, dim) and got.dtype == dt and bool(torch.isfinite(got).all())
    if not ctx.check(ok, f"{what}: shape {tuple(got.shape)} dtype {got.dtype} finite {bool(torch.isfinite(got).all())}, expected ({n}, {dim}) {dt}"):
        return None
    p = got.double().numpy()
    ctx.note((what, np.round(p, 5).tobytes()))
    return p


def near(ctx, what, p, want, eps, scale):
    err = float(np.max(np.abs(p - want), initial=0.0))
    return ctx.check(err <= eps * scale, lambda: f"{what}: positions {np.round(p, 5).tolist()}, expected {np.round(want, 5).tolist()}")


def _dirs(dim, tier):
    for v in DIRS3 if dim == 3 else DIRS2:
        for m in (1.0, 1e-3, 1e3):
            for form in ("list", "tensor", "int"):
                w = [x * m for x in v]
                if form == "int":
                    if m != 1.0 or any(x != int(x) for x in w):
                        continue
                    yield v, torch.tensor([int(x) for x in w])
                elif form == "list":
                    yield v, w
                elif m != 1.0 or tier != "quick":
                    yield v, torch.tensor(w, dtype=torch.float64)


def _linear(case, ctx):
    c, arg, kw, dt, eps = _center(case)
    dim = case["dim"]
    keep = arg.clone() if torch.is_tensor(arg) else list(arg)
    for n, sp in itertools.product(COUNTS, (0.02, 0.05, 1.0)):
        offs = (np.arange(n) - (n - 1) / 2) * sp
        scale = 1 + np.abs(c).max() + n * sp
        for axis in range(dim):
            p = basics(ctx, f"linear n={n} axis={axis} {c}", arrays.linear_array(arg, num=n, spacing=sp, axis=axis, **kw), n, dim, dt)
            if p is not None:
                near(ctx, f"linear n={n} spacing={sp} axis={axis}", p, c + offs[:, None] * np.eye(dim)[axis], eps, scale)
        if case["c"] == 1 or n in (2, 5):
            for v, d in _dirs(dim, ctx.tier):
                u = np.array(v) / np.linalg.norm(v)
                p = basics(ctx, f"linear n={n} dir={v}", arrays.linear_array(arg, num=n, spacing=sp, direction=d, **kw), n, dim, dt)
                if p is not None and not near(ctx, f"linear n={n} spacing={sp} direction={d}", p, c + offs[:, None] * u, eps, scale):
                    return
        p = basics(ctx, "linear default axis", arrays.linear_array(arg, num=n, spacing=sp, **kw), n, dim, dt)
        if p is not None:
            near(ctx, "linear default axis", p, c + offs[:, None] * np.eye(dim)[0], eps, scale)
    ctx.check(torch.equal(arg, keep) if torch.is_tensor(arg) else list(arg) == keep, "linear_array changed its centre")


def _circ(case, ctx):
    c, arg, kw, dt, eps = _center(case)
    dim = case["dim"]
    for n, r in itertools.product(COUNTS, (0.03, 0.1, 2.0)):
        a = 2 * np.pi * np.arange(n) / n
        scale = 1 + np.abs(c).max() + r
        if dim == 2:
            p = basics(ctx, f"circle 2d n={n}", arrays.circular_array(arg, num=n, radius=r, **kw), n, 2, dt)
            if p is not None:
                near(ctx, f"2-D circle n={n} radius={r}", p, c + r * np.stack([np.cos(a), np.sin(a)], 1), eps, scale)
            continue
        for plane in ("xy", "xz", "yz", "XY", "Xz", "YZ", None):
            pk = {} if plane is None else dict(plane=plane)
            i, j = ["xyz".index(ch) for ch in (plane or "xy").lower()]
            w = np.zeros((n, 3))
            w[:, i], w[:, j] = np.cos(a), np.sin(a)
            p = basics(ctx, f"circle n={n} plane={plane}", arrays.circular_array(arg, num=n, radius=r, **pk, **kw), n, 3, dt)
            if p is not None:
                near(ctx, f"circle n={n} radius={r} plane={plane}", p, c + r * w, eps, scale)


def _normal(case, ctx):
    c, arg, kw, dt, eps = _center(case)
    for n, r in itertools.product((1, 2, 3, 4, 7, 16), (0.03, 2.0)):
        for v, d in _dirs(3, ctx.tier):
            if ctx.tier == "quick" and case["c"] != 1 and n not in (3, 4):
                continue
            what = f"circle n={n} radius={r} normal={d}"
            p = basics(ctx, what, arrays.circular_array(arg, num=n, radius=r, normal=d, **kw), n, 3, dt)
            if p is None:
                return
            u = np.array(v) / np.linalg.norm(v)
            q = p - c
            scale = 1 + np.abs(c).max() + r
            # float32 normals close to an axis lose digits in the cross product
            tol = (eps if dt == torch.float64 else 2e-5) * scale + (1e-3 * r if dt == torch.float32 and 0 < min(abs(x) for x in v if x) < 1e-2 else 0) + (1e-8 * r)
            ok = np.max(np.abs(np.linalg.norm(q, axis=1) - r)) <= tol and np.max(np.abs(q @ u)) <= tol
            step = np.array([q[(k + 1) % n] @ q[k] for k in range(n)]) - r * r * math.cos(2 * math.pi / n)
            ok = ok and np.max(np.abs(step)) <= 4 * tol * max(r, 1)
            if n > 2:
                turn = np.array([np.cross(q[k], q[(k + 1) % n]) @ u for k in range(n)])
                ok = ok and np.max(np.abs(turn - turn[0])) <= 8 * tol * max(r, 1) and abs(abs(turn[0]) - r * r * math.sin(2 * math.pi / n)) <= 8 * tol * max(r, 1)
            if not ctx.check(ok, lambda: f"{what}: not an even circle around the normal: {np.round(q, 5).tolist()}"):
                return


def _solid(case, ctx):
    c, arg, kw, dt, eps = _center(case)
    for kind, r in itertools.product(SOLIDS, (0.03, 0.1, 1.5)):
        n, deg, edge = SOLIDS[kind]
        scale = 1 + np.abs(c).max() + r
        first = None
        for spell in (kind, kind.upper(), kind.title()):
            p = basics(ctx, f"{kind} r={r} {c}", arrays.polyhedron_array(arg, kind=spell, radius=r, **kw), n, 3, dt)
            if p is None:
                return
            q = p - c
            d = np.linalg.norm(q[:, None] - q[None], axis=-1) + np.eye(n) * 99
            tol = 4 * eps * scale
            ok = np.max(np.abs(np.linalg.norm(q, axis=1) - r)) <= tol and abs(d.min() - edge * r) <= tol
            ok = ok and ((d < edge * r + 10 * tol).sum(1) == deg).all()
            ctx.check(ok, f"{kind} radius {r} at {c}: not the regular solid")
            first = p if first is None else first
            ctx.check(np.array_equal(first, p), f"{kind}: spelling {spell} changes the result")
    p = basics(ctx, "default solid", arrays.polyhedron_array(arg, **kw), 4, 3, dt)
    if p is not None:
        ctx.check(np.max(np.abs(np.linalg.norm(p - c, axis=1) - 0.1)) < 4 * eps * (1 + np.abs(c).max()), "default polyhedron radius is not 0.1")


def _eigen(case, ctx):
    c, arg, kw, dt, eps = _center(case)
    for fn, th, ph in ((arrays.eigenmike_em32, EM32_THETA, EM32_PHI), (arrays.eigenmike_em64, EM64_THETA, EM64_PHI)):
        for off, r in itertools.product((None, 0.0, 30.0, 90.0, -45.0, 180.0, 360.0, 12.5, 401.0, 725.5, -400.0, -1081.0, 3601.25), (None, 0.042, 0.1, 1.0)):
            k2 = dict(kw)
            if off is not None:
                k2["azimuth_offset_deg"] = off
            if r is not None:
                k2["radius"] = r
            t, a, rr = np.deg2rad(th), np.deg2rad(np.array(ph) + (off or 0.0)), r or 0.042
            want = c + rr * np.stack([np.sin(t) * np.cos(a), np.sin(t) * np.sin(a), np.cos(t)], 1)
            p = basics(ctx, f"{fn.__name__} {off} {r} {c}", fn(arg, **k2), len(th), 3, dt)
            if p is not None:
                near(ctx, f"{fn.__name__} offset {off} radius {r}", p, want, eps, 1 + np.abs(c).max() + rr)


def _scale(case, ctx):
    """Many microphones, tiny and huge spacings and radii."""
    c, arg, kw, dt, eps = _center(case)
    for n in (10, 12, 15, 20, 31, 32, 64, 65, 100, 128, 257, 1000):
        for sp in (0.05, 7.5):
            offs = (np.arange(n) - (n - 1) / 2) * sp
            scale = 1 + np.abs(c).max() + n * sp
            p = basics(ctx, f"linear n={n}", arrays.linear_array(arg, num=n, spacing=sp, axis=1, **kw), n, 3, dt)
            if p is not None:
                near(ctx, f"linear n={n} spacing={sp} axis=1", p, c + offs[:, None] * np.eye(3)[1], eps, scale)
            p = basics(ctx, f"linear n={n}", arrays.linear_array(arg, num=n, spacing=sp, direction=[1.0, -2.0, 2.0], **kw), n, 3, dt)
            if p is not None:
                near(ctx, f"linear n={n} spacing={sp} direction", p, c + offs[:, None] * np.array([1.0, -2.0, 2.0]) / 3, eps, scale)
        for r in (0.5, 30.0):
            a = 2 * np.pi * np.arange(n) / n
            w = np.stack([np.cos(a), 0 * a, np.sin(a)], 1)
            p = basics(ctx, f"circle n={n}", arrays.circular_array(arg, num=n, radius=r, plane="xz", **kw), n, 3, dt)
            if p is not None:
                near(ctx, f"circle n={n} radius={r} plane=xz", p, c + r * w, eps, 1 + np.abs(c).max() + r)
            p = basics(ctx, f"circle n={n}", arrays.circular_array(arg, num=n, radius=r, normal=[0.0, 3.0, -4.0], **kw), n, 3, dt)
            if p is not None:
                q = p - c
                tol = eps * (1 + np.abs(c).max() + r) * 4
                ok = np.abs(np.linalg.norm(q, axis=1) - r).max() <= tol and np.abs(q @ np.array([0.0, 0.6, -0.8])).max() <= tol
                step = np.linalg.norm(q - np.roll(q, 1, axis=0), axis=1)
                ctx.check(ok and np.abs(step - 2 * r * np.sin(np.pi / n)).max() <= tol, f"circle of {n}, radius {r}, tilted: not an even circle")
    for x in (1e-4, 1e-3, 200.0, 5000.0):
        far = 1 + np.abs(c).max() + 4 * x
        offs = (np.arange(4) - 1.5) * x
        for what, got, want in (
            ("linear", lambda: arrays.linear_array(arg, num=4, spacing=x, **kw), c + offs[:, None] * np.eye(3)[0]),
            ("circle", lambda: arrays.circular_array(arg, num=4, radius=x, **kw), c + x * np.array([[1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, -1, 0]])),
            ("binaural", lambda: arrays.binaural_array(arg, offset=x, **kw), None),
        ):
            n = 2 if want is None else 4
            p = basics(ctx, f"{what} {x}", got(), n, 3, dt)
            if p is not None and want is not None:
                near(ctx, f"{what} of size {x}", p, want, eps, far)
        for kind, n in (("tetrahedron", 4), ("octahedron", 6), ("cube", 8), ("icosahedron", 12), ("dodecahedron", 20)):
            p = basics(ctx, f"{kind} {x}", arrays.polyhedron_array(arg, kind=kind, radius=x, **kw), n, 3, dt)
            if p is not None:
                ctx.check(np.abs(np.linalg.norm(p - c, axis=1) - x).max() <= 4 * eps * far, f"{kind} of radius {x}: not on its sphere")


def _binaural(case, ctx):
    c, arg, kw, dt, eps = _center(case)
    for off in (None, 0.08, 0.05, 0.5):
        p = basics(ctx, f"binaural {off} {c}", arrays.binaural_array(arg, **({} if off is None else dict(offset=off)), **kw), 2, case["dim"], dt)
        e = np.eye(case["dim"])[0] * (off or 0.08)
        if p is not None:
            near(ctx, f"binaural offset {off}", p, np.stack([c - e, c + e]), eps, 1 + np.abs(c).max())


def _refuse(case, ctx):
    c3, c2 = [1.0, 2.0, 3.0], [1.0, 2.0]
    bad = []
    for n in (0, -1, -5):
        bad += [(f"linear num {n}", lambda n=n: arrays.linear_array(c3, num=n, spacing=0.1)), (f"circle num {n}", lambda n=n: arrays.circular_array(c3, num=n, radius=0.1)),
                (f"circle 2d num {n}", lambda n=n: arrays.circular_array(c2, num=n, radius=0.1))]
    for s in (0, 0.0, -1e-9, -1.0, math.nan):
        bad += [(f"spacing {s}", lambda s=s: arrays.linear_array(c3, num=3, spacing=s)), (f"spacing {s} one mic", lambda s=s: arrays.linear_array(c3, num=1, spacing=s)),
                (f"radius {s}", lambda s=s: arrays.circular_array(c3, num=3, radius=s)), (f"radius 2d {s}", lambda s=s: arrays.circular_array(c2, num=3, radius=s)),
                (f"em32 radius {s}", lambda s=s: arrays.eigenmike_em32(c3, radius=s)), (f"em64 radius {s}", lambda s=s: arrays.eigenmike_em64(c3, radius=s))]
        bad += [(f"{k} radius {s}", lambda k=k, s=s: arrays.polyhedron_array(c3, kind=k, radius=s)) for k in SOLIDS]
    for a in (-1, -2, 3, 4):
        bad.append((f"axis {a}", lambda a=a: arrays.linear_array(c3, num=3, spacing=0.1, axis=a)))
    for a in (-1, 2, 3):
        bad.append((f"2d axis {a}", lambda a=a: arrays.linear_array(c2, num=3, spacing=0.1, axis=a)))
    for p in ("", "x", "zx", "xyz", "yx", "xx", "zz", " xy"):
        bad.append((f"plane {p!r}", lambda p=p: arrays.circular_array(c3, num=3, radius=0.1, plane=p)))
    for k in ("", "sphere", "tetra", "cubes", "dodeca"):
        bad.append((f"kind {k!r}", lambda k=k: arrays.polyhedron_array(c3, kind=k)))
    for d in ([1.0], [1.0, 0.0], [1.0, 0.0, 0.0, 0.0]):
        bad += [(f"direction {d}", lambda d=d: arrays.linear_array(c3, num=3, spacing=0.1, direction=d)), (f"normal {d}", lambda d=d: arrays.circular_array(c3, num=3, radius=0.1, normal=d))]
    for d in ([0.0, 0.0, 0.0], [-0.0, 0.0, 0.0], [0, 0, 0], torch.zeros(3, dtype=torch.float64), [math.nan, 0.0, 1.0], [1.0, math.nan, 0.0], [0.0, 0.0, math.nan]):
        for n in (1, 3):
            bad += [(f"direction {d} n={n}", lambda d=d, n=n: arrays.linear_array(c3, num=n, spacing=0.1, direction=d)), (f"normal {d} n={n}", lambda d=d, n=n: arrays.circular_array(c3, num=n, radius=0.1, normal=d))]
    for d in ([0.0, 0.0], [math.nan, 1.0], [1.0, math.nan]):
        bad.append((f"2d direction {d}", lambda d=d: arrays.linear_array(c2, num=3, spacing=0.1, direction=d)))
    bad.append(("2d direction of 3", lambda: arrays.linear_array(c2, num=3, spacing=0.1, direction=[1.0, 0.0, 0.0])))
    for c in (c2, [1.0], [1.0, 2.0, 3.0, 4.0]):
        bad += [(f"em32 centre {c}", lambda c=c: arrays.eigenmike_em32(c)), (f"em64 centre {c}", lambda c=c: arrays.eigenmike_em64(c))]
        bad += [(f"{k} centre {c}", lambda k=k, c=c: arrays.polyhedron_array(c, kind=k)) for k in SOLIDS]
    for c in ([1.0], [1.0, 2.0, 3.0, 4.0]):
        bad.append((f"circle centre {c}", lambda c=c: arrays.circular_array(c, num=3, radius=0.1)))
    for what, fn in bad:
        ctx.count()
        ctx.check(raises(fn, ValueError), f"accepted: {what}")
        ctx.note(what)
