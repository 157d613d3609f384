"""P03: batching, ordering and performance settings do not change a response."""

import itertools

import torch

from mc import ref
from mc.simlib import *  # noqa: F403
from mc.simlib import DT, MIC_F, SIZES, SRC_F, cfg, points, same

ID = "P03"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of batch subsets, permutations and performance settings on the real code against one-pair-at-a-time simulation"
NOTE = (
    "Every chunk size from 1 past the image count, every permutation and selection (with repetition) of up to 3 entities "
    "and every combination of the other settings of the grid is executed and compared with the one-by-one result."
)
RULE = (
    "image chunk sizes 1..N+1 (and 2048) x accumulation chunk sizes 1..N+1 x static/dynamic x LUT on/off; all index "
    "tuples (with repetition, up to 3) of sources, mics and steps; batches of up to 33 entities and steps and of up to 1025 of one kind; walls down to 0.001; cut and weak responses; LUT granularities; mixed precision and compile flags. "
    "Non-trivial: more than one chunk, pair or step; distinct by (setting, rounded response)."
)
ASSUMPTIONS = [
    "tolerance: 1e-11 relative (float64) for reordered sums; pi^2/24/granularity^2 per unit amplitude for the LUT",
    "CPU only (compile flag takes effect on accelerators only)",
]


def cases(tier):
    deep = tier == "thorough"
    for dim, dyn, lut, order in itertools.product((2, 3), (False, True), (False, True), (1, 2) if not deep else (1, 2, 3)):
        n_img = len(ref.index_set(dim, order))
        ics = list(range(1, n_img + 2)) + [2048]
        for ic in ics:
            yield dict(k="chunk", dim=dim, dyn=dyn, lut=lut, order=order, ic=ic, n_img=n_img)
    idx = [t for r in (1, 2, 3) for t in itertools.product(range(3), repeat=r)]
    for dim, dyn in itertools.product((2, 3), (False, True)):
        for s in idx:
            yield dict(k="perm", dim=dim, dyn=dyn, s=s, ms=idx if deep else [t for t in idx if len(t) != 2] )
    for dim, dyn, ns, nm, T in itertools.product((2, 3), (False, True), (1, 4, 5, 9, 17, 33), (1, 4, 5, 9, 17, 33), (1, 2, 9, 33)):
        if (T == 1 or dyn) and ns * nm * T <= 600:
            yield dict(k="many", dim=dim, dyn=dyn, ns=ns, nm=nm, T=T)
    for dim, ns, nm in itertools.product((2, 3), (1, 64, 65, 129, 257, 300, 513, 1025), (1, 64, 65, 129, 257, 300, 513, 1025)):
        if 33 < ns * nm <= 1100:
            yield dict(k="many", dim=dim, dyn=False, ns=ns, nm=nm, T=1)
    for dim, dyn, part in itertools.product((2, 3), (False, True), range(4)):
        yield dict(k="heavy", dim=dim, dyn=dyn, part=part)
    for dim, dyn, gran, fdl, dt in itertools.product(
        (2, 3), (False, True), (1, 2, 3, 4, 5, 7, 10, 16, 20, 33, 50, 100), (1, 3, 5, 21, 81), ("f32", "f64")
    ):
        yield dict(k="lut", dim=dim, dyn=dyn, gran=gran, fdl=fdl, dt=dt)
    for dim, dyn, mp, uc, lut, dt in itertools.product(
        (2, 3), (False, True), (False, True), (False, True), (False, True), ("f32", "f64")
    ):
        yield dict(k="flags", dim=dim, dyn=dyn, mp=mp, uc=uc, lut=lut, dt=dt)


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


def _room(size, dtype=torch.float64):
    return Room.shoebox(size=list(size), fs=8000, beta=[0.93, 0.81, 0.77, 0.69, 0.57, 0.43][: 2 * len(size)], dtype=dtype)


def _sim(dyn, room, st, mt, n, conf, order=2, **kw):
    """st, mt: (T, n, dim); the static simulation uses step 0."""
    if dyn:
        return simulate_dynamic_rir(room=room, src_traj=st, mic_traj=mt, max_order=order, nsample=n, config=conf, **kw)
    return simulate_rir(room=room, sources=st[0], mics=mt[0], max_order=order, nsample=n, config=conf, **kw)


def _geo(size, dtype=torch.float64):
    s = torch.tensor(points(SRC_F, size, 3), dtype=dtype)
    m = torch.tensor(points(MIC_F, size, 3), dtype=dtype)
    return torch.stack([s, s.roll(1, 0), s.roll(2, 0)]), torch.stack([m, m.flip(0), m.roll(1, 0)])


def _amp(r):
    return max(1.0, float(r.abs().max()))


def _chunk(case, ctx):
    dim, dyn, order = case["dim"], case["dyn"], case["order"]
    size = SIZES[dim][0]
    room = _room(size)
    st, mt = _geo(size)
    st, mt = st[:2, :2], mt[:2, :2]
    n_img = case["n_img"]
    acs = sorted({1, 2, 3, 4, 5, 7, n_img - 1, n_img, n_img + 1, case["ic"]} - {0}) if case["ic"] > 12 else range(1, case["ic"] + 2)
    faint = Room.shoebox(size=list(size), fs=8000, beta=[0.01, 0.002, 0.03, 0.001, 0.02, 0.005][: 2 * dim], dtype=torch.float64)
    weak = Room.shoebox(size=list(size), fs=8000, beta=[0.0, 1.0, 0.03, 0.9, 0.7, 0.0][: 2 * dim], dtype=torch.float64)
    for rm, n in ((room, 200), (room, 45), (room, 70), (weak, 120), (faint, 160)):
        big = cfg(frac_delay_length=9, use_lut=case["lut"], image_chunk_size=100000, accumulate_chunk_size=100000)
        base = _sim(dyn, rm, st, mt, n, big, order)
        for ac in acs:
            if case["ic"] < 3 and dim == 3 and order > 2 and ac > 3:
                continue
            out = _sim(dyn, rm, st, mt, n, cfg(frac_delay_length=9, use_lut=case["lut"], image_chunk_size=case["ic"],
                                               accumulate_chunk_size=ac), order)
            ctx.count()
            ctx.check(same(out, base, 1e-11 * _amp(base) if rm is not faint else 1e-13),
                      f"image chunk {case['ic']} / accumulate chunk {ac} of {n_img} images changes the response of {n} samples: {case}")
            ctx.note((case["ic"], ac, n, out.numpy().round(6).tobytes()))
    # mic patterns and orientations travel with the chunks too
    kw = dict(directivity=("cardioid", "hypercardioid"),
              orientation=(torch.tensor([1.0, 2.0, 0.5][:dim]).double(), torch.tensor([[-1.0, 0.3, 0.2][:dim], [0.2, 1.0, -1.0][:dim]]).double()))
    a = _sim(dyn, room, st, mt, 200, cfg(frac_delay_length=9, image_chunk_size=case["ic"], accumulate_chunk_size=2), order, **kw)
    b = _sim(dyn, room, st, mt, 200, cfg(frac_delay_length=9, image_chunk_size=100000), order, **kw)
    ctx.check(same(a, b, 1e-11 * _amp(b)), f"chunking changes a directional response: {case}")


def _perm(case, ctx):
    dim, dyn = case["dim"], case["dyn"]
    size = SIZES[dim][0]
    room = _room(size)
    st, mt = _geo(size)
    conf = cfg(frac_delay_length=9)
    # one by one
    key = (dim, dyn)
    if key not in _single:
        _single[key] = {
            (i, j): _sim(dyn, room, st[:, i:i + 1], mt[:, j:j + 1], 150, conf) for i in range(3) for j in range(3)
        }
    one = _single[key]
    for m in case["ms"]:
        out = _sim(dyn, room, st[:, list(case["s"])], mt[:, list(m)], 150, conf)
        ctx.count()
        want = torch.cat([torch.cat([one[i, j] for j in m], dim=-2) for i in case["s"]], dim=-3)
        ctx.check(same(out, want, 1e-11), f"{'dynamic' if dyn else 'static'} {dim}D sources {case['s']} mics {m}: joint result differs from one by one")
        ctx.note(out.numpy().round(6).tobytes())


_single = {}


def _many(case, ctx):
    """Large batches made of repeated entities and steps: every repetition gives the same response."""
    dim, dyn, ns, nm, T = case["dim"], case["dyn"], case["ns"], case["nm"], case["T"]
    size = SIZES[dim][0]
    room = _room(size)
    st, mt = _geo(size)
    si, mi, ti = [(2 * i) % 3 for i in range(ns)], [(i * i + 1) % 3 for i in range(nm)], [(2 * t + 1) % 3 for t in range(T)]
    if not dyn:
        ti = [0]
    conf = cfg(frac_delay_length=9)
    key = ("many", dim)
    if key not in _single:
        _single[key] = torch.stack([torch.stack([torch.cat([
            _sim(False, room, st[t:, i:i + 1], mt[t:, j:j + 1], 120, conf)[0] for j in range(3)]) for i in range(3)]) for t in range(3)])
    one = _single[key]
    out = _sim(dyn, room, st[ti][:, si], mt[ti][:, mi], 120, conf)
    want = one[ti][:, si][:, :, mi]
    want = want if dyn else want[0]
    ctx.count()
    ctx.check(same(out, want, 1e-11), f"{case}: a large batch differs from one-by-one simulation")
    ctx.note((dim, dyn, ns, nm, T))


def _heavy(case, ctx):
    """A million and more image paths in one call; every source, microphone and step against its own call."""
    dim, dyn, part = case["dim"], case["dyn"], case["part"]
    size = SIZES[dim][0]
    room = _room(size)
    T, ns, nm, order = [(1, 40, 40, 0), (1, 3, 5, 0), (1, 130, 8, 0), (1, 8, 130, 0)][part]
    if dyn:
        T, ns, nm = [(40, 6, 6), (3, 1, 2), (130, 2, 4), (8, 20, 9)][part]
    order = {2: 18, 3: 7}[dim] if part != 1 else {2: 60, 3: 20}[dim]

    def spread(n, a):
        return torch.tensor([[(0.1 + 0.8 * ((a * (i + 1) * (j + 2)) % 1.0)) * size[j] for j in range(dim)] for i in range(n)], dtype=torch.float64)

    st, mt = spread(ns * T, 0.381966).view(T, ns, dim), spread(nm * T, 0.618034).view(T, nm, dim)
    conf = cfg(frac_delay_length=9)
    kw = dict(order=order)
    if part in (0, 3):
        kw.update(directivity=("cardioid", "hypercardioid"), orientation=(torch.tensor([0.6, -0.3, 0.2][:dim], dtype=torch.float64), torch.tensor([-0.2, 0.9, 0.4][:dim], dtype=torch.float64)))
    out = _sim(dyn, room, st, mt, 400, conf, **kw)
    out = out if dyn else out[None]
    ctx.count()
    for t in range(T) if dyn else (0,):
        # one source at a time and, for a few steps, one microphone at a time
        for i in range(ns) if t in (0, T // 2, T - 1) else (t % ns,):
            one = _sim(False, room, st[t:, i : i + 1], mt[t:], 400, conf, **kw)
            ctx.count()
            if not ctx.check(same(out[t, i], one[0], 1e-9 * _amp(one)), f"{case}: step {t} source {i} differs in a large batch ({float((out[t, i] - one[0]).abs().max()):.3g})"):
                return
        for j in range(nm) if t in (0, T - 1) else ():
            one = _sim(False, room, st[t:], mt[t:, j : j + 1], 400, conf, **kw)
            ctx.count()
            if not ctx.check(same(out[t, :, j], one[:, 0], 1e-9 * _amp(one)), f"{case}: step {t} mic {j} differs in a large batch"):
                return
    ctx.note((dim, dyn, part, float(out.abs().sum())))


def _lut(case, ctx):
    dim, dyn, gran, fdl, dt = case["dim"], case["dyn"], case["gran"], case["fdl"], DT[case["dt"]]
    size = SIZES[dim][1]
    room = _room(size, dt)
    st, mt = _geo(size, dt)
    n = 220
    a = _sim(dyn, room, st, mt, n, cfg(frac_delay_length=fdl, use_lut=True, sinc_lut_granularity=gran))
    b = _sim(dyn, room, st, mt, n, cfg(frac_delay_length=fdl, use_lut=False))
    bound = torch.zeros(())
    # sum of absolute path amplitudes per pair bounds the interpolation error
    amps = 0.0
    for t in range(3 if dyn else 1):
        for i in range(3):
            for j in range(3):
                pl = ref.image_paths([float(x) for x in size], [0.93, 0.81, 0.77, 0.69, 0.57, 0.43][: 2 * dim],
                                     st[t, i].double().numpy(), mt[t, j].double().numpy(), c=343.0, fs=8000, fdl=fdl, max_order=2)
                amps = sum(abs(x) for _, x in pl)
                tol = amps * (0.4124 / gran**2 * 1.02 + (3e-4 if dt == torch.float32 else 1e-9)) + 1e-9
                da, db = (a[t, i, j], b[t, i, j]) if dyn else (a[i, j], b[i, j])
                err = float((da - db).abs().max())
                ctx.check(err <= tol, f"{case}: step {t} src {i} mic {j}: LUT changes the response by {err:.3g} > {tol:.3g}")
    ctx.count()
    ctx.note((gran, fdl, a.double().numpy().round(5).tobytes()))


def _flags(case, ctx):
    dim, dyn, dt = case["dim"], case["dyn"], DT[case["dt"]]
    size = SIZES[dim][0]
    room = _room(size, dt)
    st, mt = _geo(size, dt)
    base = _sim(dyn, room, st, mt, 200, cfg(frac_delay_length=21, use_lut=case["lut"]))
    out = _sim(dyn, room, st, mt, 200, cfg(frac_delay_length=21, use_lut=case["lut"], mixed_precision=case["mp"], use_compile=case["uc"]))
    ctx.count()
    ctx.check(out.dtype == dt, f"{case}: dtype {out.dtype}")
    ctx.check(same(out, base, 1e-6 if dt == torch.float32 else 1e-11), f"flags change the response: {case}")
    ctx.note((case["mp"], case["uc"], out.double().numpy().round(5).tobytes()))
