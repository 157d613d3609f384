"""P01: static RIR = image-source sum, over an exhaustive grid of rooms, walls, orders and settings."""

import itertools

import torch

from mc import ref
from mc.simlib import *  # noqa: F403
from mc.simlib import DT, MIC_F, SIZES, SRC_F, all_paths, cfg, compare, points, room_beta

ID = "P01"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of rooms, walls, orders and settings on the real code against an independent image-source reference"
NOTE = (
    "Every combination of the stated finite grid is executed and compared sample by sample; assurance is complete on "
    "the grid, none outside it. Trusts the numpy reference in mc/ref.py (mirror-reflection construction)."
)
RULE = (
    "every combination of: wall coefficients from {0,.5,1}^4 (2D) and {.3,.9}^6 (3D), T60 and lossless rooms, "
    "orders 0..4, per-axis counts {0,1,2}^dim, filter lengths, sample rates, sound speeds, response lengths, dtypes, "
    "1-3 sources and mics, integer/float/entity input forms; path lengths that are exact whole samples, table on and off; distances from 0.1 mm, rooms from millimetres to tens of kilometres, orders to 40, walls from 1e-6 to 0.99999. Non-trivial: the reference response has at least one "
    "non-zero sample; distinct by rounded response."
)
ASSUMPTIONS = [
    "image sample positions within 1e-6 (float64) / 1e-3 (float32) of an integer, but not exactly on it, are left out, where the windowed "
    "sinc is discontinuous; coincident source and mic are decided by P06 (finite) only",
    "CPU only",
]


def cases(tier):
    deep = tier == "thorough"
    # A: 2D walls x order
    for g in range(2):
        for beta in itertools.product((0.0, 0.5, 1.0), repeat=4):
            yield dict(k="walls", dim=2, g=g, beta=beta, orders=[0, 1, 2, 3, 4] if not deep else list(range(8)))
    for g in range(2):
        for beta in itertools.product((0.3, 0.9), repeat=6):
            yield dict(k="walls", dim=3, g=g, beta=beta, orders=[1, 2, 3] if not deep else [0, 1, 2, 3, 4, 5])
    # every wall distinct
    yield dict(k="walls", dim=2, g=0, beta=(0.91, 0.83, 0.71, 0.59), orders=list(range(9)))
    yield dict(k="walls", dim=3, g=0, beta=(0.97, 0.89, 0.79, 0.67, 0.53, 0.41), orders=list(range(7)))
    # B: per-axis counts
    for dim in (2, 3):
        for nb in itertools.product((0, 1, 2) if not deep else (0, 1, 2, 3), repeat=dim):
            yield dict(k="nb", dim=dim, nb=nb)
    # C: rates, speeds, filter lengths, response lengths, dtype, LUT
    fss = (1000, 8000.0, 16000, 11025.5) if not deep else (500, 1000, 4000, 8000.0, 16000, 11025.5, 44100, 48000)
    for dim, fs, c, fdl in itertools.product((2, 3), fss, (343.0, 340, 1480.0, 170.5), (1, 3, 5, 21, 81)):
        yield dict(k="par", dim=dim, fs=fs, c=c, fdl=fdl)
    # D: T60 / lossless
    for dim, g, t60 in itertools.product((2, 3), (0, 1), (None, 0.01, 0.05, 0.2, 0.5, 1.0, 5.0)):
        yield dict(k="t60", dim=dim, g=g, t60=t60)
    # E: counts of entities and input forms
    for dim, ns, nm, form, dt in itertools.product(
        (2, 3), (1, 2, 3), (1, 2, 3), ("tensor", "entity", "mixed", "list"), ("f32", "f64", "none")
    ):
        yield dict(k="form", dim=dim, ns=ns, nm=nm, form=form, dt=dt)
    # F: whole-number geometry in every combination of integer / float inputs
    for dim, mask, spec in itertools.product((2, 3), range(8), ("beta", "t60", "none")):
        yield dict(k="int", dim=dim, mask=mask, spec=spec)
    # G: path lengths that are exact whole numbers of samples (dyadic arithmetic, so every rounding is exact)
    for dim, axis, order, dt, fdl in itertools.product((2, 3), (0, 1, 2), (0, 1, 2, 3), ("f32", "f64"), (1, 3, 21, 81)):
        if axis < dim:
            yield dict(k="exact", dim=dim, axis=axis, order=order, dt=dt, fdl=fdl)
    # H: microphones ever closer to a source or to its wall images, and ever larger and smaller worlds
    for dim, where, dt in itertools.product((2, 3), ("free", "wall", "corner"), ("f32", "f64")):
        yield dict(k="near", dim=dim, where=where, dt=dt)
    for dim, dt, e in itertools.product((2, 3), ("f32", "f64"), (-3, -2, -1, 1, 2, 3, 4)):
        yield dict(k="scale", dim=dim, dt=dt, e=e)
    for dim, n in itertools.product((2, 3), (4097, 8193, 16385, 65537, 100003, 500001, 2000003)):
        yield dict(k="tall", dim=dim, n=n)
    for dim, n, bits in itertools.product((2, 3), (100, 3000, 20000), (8, 15, 16, 20, 24, 30, 31, 32, 36)):
        yield dict(k="beyond", dim=dim, n=n, bits=bits)
    # I: high orders, lopsided counts, weak walls, long responses, many entities
    for dim, order in [(2, o) for o in (10, 15, 20, 40)] + [(3, o) for o in (8, 10, 12)]:
        yield dict(k="high", dim=dim, order=order, nb=None)
    for nb in ((30, 0), (0, 30), (12, 9), (30, 0, 0), (0, 30, 1), (1, 0, 30), (7, 5, 6)):
        yield dict(k="high", dim=len(nb), order=1, nb=nb)
    for dim, b, order in itertools.product((2, 3), (1e-6, 1e-4, 1e-3, 0.01, 0.05, 0.9995, 0.99999), (1, 2, 3)):
        yield dict(k="weak", dim=dim, b=b, order=order)


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


def _go(ctx, size, room_kw, srcs, mics, *, order=None, nb=None, fs=8000, c=343.0, fdl=21, n=200,
        dt="f64", gran=None, what="", src_arg=None, mic_arg=None):
    dtype = DT[dt]
    conf = cfg(frac_delay_length=fdl, use_lut=gran is not None, sinc_lut_granularity=gran or 20)
    room = Room.shoebox(size=list(size), fs=fs, c=c, dtype=dtype, **room_kw)
    out = simulate_rir(
        room=room,
        sources=src_arg if src_arg is not None else tens(srcs, dtype),
        mics=mic_arg if mic_arg is not None else tens(mics, dtype),
        max_order=order if order is not None else 0,
        nb_img=nb,
        nsample=n,
        config=conf,
    )
    ctx.count()
    ctx.check(out.dtype == dtype, f"{what}: dtype {out.dtype}, expected {dtype}")
    paths = all_paths(size, room_beta(size, room_kw), srcs, mics, c=c, fs=fs, fdl=fdl, max_order=order, nb_img=nb)
    compare(ctx, out, paths, n, fdl, dtype, gran, what)
    v = out.double().numpy().round(6)
    if v.any():
        ctx.note(v.tobytes())
    return out


def _walls(case, ctx):
    dim = case["dim"]
    size = SIZES[dim][case["g"]]
    for order in case["orders"]:
        srcs, mics = points(SRC_F, size, 2 if dim == 2 else 1), points(MIC_F, size, 2)
        _go(ctx, size, dict(beta=list(case["beta"])), srcs, mics, order=order, fs=4000, fdl=11, n=400,
            what=f"{dim}D beta={case['beta']} order={order}")


def _nb(case, ctx):
    dim, nb = case["dim"], tuple(case["nb"])
    size = SIZES[dim][0]
    beta = [0.93, 0.81, 0.77, 0.69, 0.57, 0.43][: 2 * dim]
    srcs, mics = points(SRC_F, size, 2), points(MIC_F, size, 1)
    for form in (nb, list(nb), torch.tensor(nb)):
        _go(ctx, size, dict(beta=beta), srcs, mics, nb=form if not torch.is_tensor(form) else form, fs=4000,
            fdl=11, n=500, what=f"{dim}D nb_img={nb} ({type(form).__name__})") if not torch.is_tensor(form) else \
            _nb_tensor(ctx, size, beta, srcs, mics, nb)


def _nb_tensor(ctx, size, beta, srcs, mics, nb):
    room = Room.shoebox(size=list(size), fs=4000, beta=beta, dtype=torch.float64)
    kw = dict(room=room, sources=tens(srcs, torch.float64), mics=tens(mics, torch.float64), nsample=500,
              config=cfg(frac_delay_length=11))
    a = simulate_rir(max_order=0, nb_img=torch.tensor(nb), **kw)
    b = simulate_rir(max_order=7, nb_img=nb, **kw)
    ctx.check(same(a, b, 1e-12), f"nb_img={nb}: tensor and tuple form (or the ignored order) disagree")


def _par(case, ctx):
    dim, fs, c, fdl = case["dim"], case["fs"], case["c"], case["fdl"]
    size = SIZES[dim][1]
    srcs, mics = points(SRC_F, size, 1), points(MIC_F, size, 2)
    beta = [0.93, 0.81, 0.77, 0.69, 0.57, 0.43][: 2 * dim]
    full = int(3 * sum(size) / c * fs) + fdl
    for n in (1, 2, 9, fdl, max(1, full // 2), full):
        for dt, gran in (("f64", None), ("f64", 20), ("f32", 20)):
            _go(ctx, size, dict(beta=beta), srcs, mics, order=2, fs=fs, c=c, fdl=fdl, n=n, dt=dt, gran=gran,
                what=f"{dim}D fs={fs} c={c} fdl={fdl} n={n} {dt} lut={gran}")


def _exact(case, ctx):
    """Only the two walls of one axis reflect and source and mic differ along that axis only."""
    dim, axis, fdl, dtype = case["dim"], case["axis"], case["fdl"], DT[case["dt"]]
    size = [8.0] * dim
    src, mic = [2.0] * dim, [2.0] * dim
    beta = [0.0] * (2 * dim)
    beta[2 * axis:2 * axis + 2] = [0.5, 0.25]
    room = Room.shoebox(size=size, fs=8192, c=512.0, beta=beta, dtype=dtype)
    for delta in (1.0, 2.5, 3.0625):
        mic[axis] = src[axis] + delta
        for n, lut, gran, dyn in itertools.product((30, 600), (False, True), (1, 20), (False, True)):
            if gran == 1 and not lut:
                continue
            kw = dict(room=room, max_order=case["order"], nsample=n,
                      config=cfg(frac_delay_length=fdl, use_lut=lut, sinc_lut_granularity=gran))
            s, m = tens([src], dtype), tens([mic], dtype)
            out = simulate_dynamic_rir(src_traj=s[None], mic_traj=m[None], **kw)[0] if dyn else simulate_rir(
                sources=s, mics=m, **kw)
            paths = ref.image_paths(size, beta, src, mic, c=512.0, fs=8192, fdl=fdl, max_order=case["order"])
            want = torch.zeros(n, dtype=torch.float64)
            for pos, amp in paths:
                if amp == 0.0:
                    continue
                k = int(round(pos))
                assert abs(pos - k) < 1e-9
                if k < n:
                    want[k] += amp
            ctx.count()
            err = float((out[0, 0].double() - want).abs().max())
            ctx.check(err <= (1e-9 if dtype == torch.float64 else 2e-5) * (1 + float(want.abs().sum())),
                      f"{case} delta={delta} n={n} lut={lut}/{gran} dyn={dyn}: a path arriving exactly on a sample is not one sample (error {err:.3g})")
            ctx.note((case["axis"], delta, n, want.numpy().tobytes()))


def _near(case, ctx):
    dim, dt = case["dim"], case["dt"]
    size = SIZES[dim][0]
    base = {"free": points(SRC_F, size, 1)[0], "wall": (0.003, *points(SRC_F, size, 1)[0][1:]), "corner": tuple(v - 0.004 for v in size)}[case["where"]]
    dirs = [d for d in itertools.product((-1, 0, 1), repeat=dim) if any(d)]
    for e in (1e-4, 1e-3, 2e-3, 5e-3, 0.0117, 0.03, 0.07, 0.15, 0.4):
        if dt == "f32" and e < 5e-3:
            continue  # the difference of two float32 coordinates is itself only good to 1e-4 there
        for d in dirs:
            mic = tuple(b + e * k * f for b, k, f in zip(base, d, (1.0, 0.83, 0.71)))
            if not all(1e-4 < v < s for v, s in zip(mic, size)):
                continue
            for order, fs, gran in ((0, 8000, None), (2, 48000, None), (2, 48000, 20)):
                _go(ctx, size, dict(beta=[0.9, 0.8, 0.7, 0.6, 0.5, 0.4][: 2 * dim]), [base], [mic], order=order, fs=fs, fdl=21, n=200, dt=dt, gran=gran,
                    what=f"{case} {e} {d} order {order} fs {fs} lut {gran}")


def _scale(case, ctx):
    """The same shapes blown up or shrunk, with the sample rate (so that a response has as many samples) or with the speed of sound."""
    dim, dt, k = case["dim"], case["dt"], 10.0 ** case["e"]
    size = tuple(v * k for v in SIZES[dim][0])
    srcs, mics = [[v * k for v in p] for p in points(SRC_F, SIZES[dim][0], 2)], [[v * k for v in p] for p in points(MIC_F, SIZES[dim][0], 2)]
    beta = [0.93, 0.81, 0.77, 0.69, 0.57, 0.43][: 2 * dim]
    for fs, c in ((4000 / k, 343.0), (4000.0, 343.0 * k)):
        for order, gran in ((0, None), (2, None), (2, 20)):
            _go(ctx, size, dict(beta=beta), srcs, mics, order=order, fs=fs, c=c, fdl=21, n=400, dt=dt, gran=gran, what=f"{case} fs {fs} c {c} order {order} lut {gran}")


def _tall(case, ctx):
    """Long responses with sound at both ends and in the middle."""
    dim, n = case["dim"], case["n"]
    fs = 16000
    side = n / fs * 343.0
    size = (side * 1.3, 4.0, 3.0)[:dim]
    srcs = [(1.0, 1.5, 1.2)[:dim]]
    mics = [(1.0 + side * f, 1.7, 1.1)[:dim] for f in (1e-9, 0.24999, 0.5, 0.7501)] + [(1.0 + (n - 13.4) / fs * 343.0, 1.5, 1.2)[:dim]]
    for order, gran in ((0, None), (1, None), (1, 20)):
        _go(ctx, size, dict(beta=[0.93, 0.81, 0.77, 0.69, 0.57, 0.43][: 2 * dim]), srcs, mics, order=order, fs=fs, fdl=21, n=n, gran=gran, what=f"{case} order {order} lut {gran}")


def _beyond(case, ctx):
    """Short responses in rooms whose later images arrive any power of two of samples after the end."""
    dim, n, bits = case["dim"], case["n"], case["bits"]
    fs = 16000
    # arrivals of the first-order image of the far wall: 2^bits + a place inside the response
    for place, near in itertools.product((0.2, 0.5, 0.9), (0.1, 0.35)):
        src = (1.0, 1.5, 1.2)[:dim]
        gap = (n * near + 0.43) / fs * 343.0
        mic = (1.0 + gap, 1.5, 1.2)[:dim]
        far = (2**bits + place * n + 0.37) / fs * 343.0
        side = (far + 2.0 + gap) / 2
        for order, b in ((1, 1.0), (2, 1.0)):
            _go(ctx, (side, 4.0, 3.0)[:dim], dict(beta=[b] * (2 * dim)), [src], [mic], order=order, fs=fs, fdl=11, n=n, what=f"{case} place {place} near {near} order {order}")


def _high(case, ctx):
    dim, nb = case["dim"], case["nb"]
    size = SIZES[dim][0]
    beta = [0.99, 0.97, 0.98, 0.96, 0.995, 0.985][: 2 * dim]
    for n, gran in ((3000, None), (400, 20)):
        _go(ctx, size, dict(beta=beta), points(SRC_F, size, 1), points(MIC_F, size, 1), order=None if nb else case["order"], nb=nb, fs=4000, fdl=21, n=n, gran=gran,
            what=f"{case} n {n} lut {gran}")


def _weak(case, ctx):
    """Every image on its own: with one reflecting wall per axis at strength b the images of each order are told apart by b^order."""
    dim, b, order = case["dim"], case["b"], case["order"]
    size = SIZES[dim][1]
    for mask in range(1, 2 ** (2 * dim)):
        if bin(mask).count("1") not in (1, 2, 2 * dim):
            continue
        beta = [b if mask >> k & 1 else 0.0 for k in range(2 * dim)]
        _go(ctx, size, dict(beta=beta), points(SRC_F, size, 1), points(MIC_F, size, 1), order=order, fs=8000, fdl=21, n=700, what=f"{case} walls {beta}")


def _t60(case, ctx):
    dim = case["dim"]
    size = SIZES[dim][case["g"]]
    srcs, mics = points(SRC_F, size, 2), points(MIC_F, size, 2)
    for order in (1, 3):
        for dt in ("f64", "f32"):
            kw = {} if case["t60"] is None else {"t60": case["t60"]}
            _go(ctx, size, kw, srcs, mics, order=order, n=500, dt=dt, what=f"{dim}D t60={case['t60']} order={order} {dt}")


def _form(case, ctx):
    dim, ns, nm = case["dim"], case["ns"], case["nm"]
    size = SIZES[dim][0]
    srcs, mics = points(SRC_F, size, ns), points(MIC_F, size, nm)
    explicit = case["dt"] != "none"
    dtype = DT[case["dt"]] if explicit else torch.float32
    room = Room.shoebox(size=list(size), fs=8000, beta=[0.9, 0.8, 0.7, 0.6, 0.5, 0.4][: 2 * dim], dtype=torch.float32)
    in_dt = torch.float64 if explicit else torch.float32

    def wrap(cls, rows, as_list):
        t = tens(rows, in_dt)
        if case["form"] == "entity" or (case["form"] == "mixed" and cls is Source):
            return cls.from_positions(rows if as_list else t, dtype=in_dt)
        if case["form"] == "list":
            return cls.from_positions(rows, dtype=in_dt)
        return t if len(rows) > 1 else t[0]

    out = simulate_rir(
        room=room, sources=wrap(Source, srcs, True), mics=wrap(MicrophoneArray, mics, False), max_order=2,
        nsample=300, config=cfg(frac_delay_length=21), dtype=dtype if explicit else None,
    )
    ctx.check(out.dtype == dtype, f"dtype {out.dtype}, expected {dtype} for {case}")
    # geometry and coefficients passed through float32 where the room stores them so
    sz = [float(x) for x in room.size.double()]
    be = [float(x) for x in room.beta.double()]
    paths = all_paths(sz, be, srcs, mics, c=343.0, fs=8000, fdl=21, max_order=2)
    compare(ctx, out, paths, 300, 21, torch.float32 if dtype == torch.float32 else dtype, None, str(case),
            ) if dtype == torch.float32 or explicit else None
    ctx.note((ns, nm, out.double().numpy().round(5).tobytes()))


def _int(case, ctx):
    dim, mask = case["dim"], case["mask"]
    size = (5, 4, 3)[:dim]
    srcs = [(1, 3, 2)[:dim], (4, 1, 1)[:dim]]
    mics = [(3, 2, 1)[:dim], (2, 1, 2)[:dim]]
    kw = {"beta": [0.9, 0.7, 0.8, 0.6, 0.5, 0.3][: 2 * dim]} if case["spec"] == "beta" else (
        {"t60": 0.4} if case["spec"] == "t60" else {})
    fl = lambda rows: [[float(x) for x in r] for r in rows]
    outs = []
    for use_int in (True, False):
        sz = list(size) if (use_int and mask & 1) else [float(x) for x in size]
        st = torch.tensor(srcs if (use_int and mask & 2) else fl(srcs))
        mt = torch.tensor(mics if (use_int and mask & 4) else fl(mics))
        room = Room.shoebox(size=sz, fs=8000, **kw)
        for wrap in (False, True):
            outs.append(simulate_rir(
                room=room, sources=Source.from_positions(st) if wrap else st,
                mics=MicrophoneArray.from_positions(mt) if wrap else mt,
                max_order=2, nsample=300, config=cfg(frac_delay_length=21)))
    for o in outs:
        ctx.check(o.dtype == torch.float32, f"integer inputs give dtype {o.dtype}")
        ctx.check(same(o, outs[-1], 1e-6), f"whole-number inputs differ from floats: {case}")
    # path lengths of integer geometry are generic enough at this rate and speed
    paths = all_paths(size, room_beta(size, kw), srcs, mics, c=343.0, fs=8000, fdl=21, max_order=2)
    compare(ctx, outs[0], paths, 300, 21, torch.float32, None, str(case))
    ctx.note(outs[0].double().numpy().round(5).tobytes())
