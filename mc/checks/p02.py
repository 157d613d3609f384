"""P02: every step of a dynamic RIR equals the static RIR of that step's geometry."""

import itertools

import torch

from mc.simlib import *  # noqa: F403
from mc.simlib import DT, MIC_F, SIZES, SRC_F, cfg, points, same

ID = "P02"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of trajectory histories on the real code, each step checked against the static simulation"
NOTE = (
    "All position histories up to the stated length over a set of anchor points, times all settings combinations of the "
    "grid, are executed. The static simulation used as oracle is itself decided by P01/P06/P07."
)
RULE = (
    "all step histories (each entity independently at one of 2-3 anchor points) up to T=4 x source/mic counts x 2D/3D; "
    "x directivity pairs, orientation forms, high-pass, lookup table, dtype, per-axis counts; image and accumulation chunk sizes in weak, strong and cut responses; single trajectories of up to 1025 steps (thorough 4097); missing, shared and misshapen directions. Non-trivial: non-zero "
    "response; distinct by rounded response."
)
ASSUMPTIONS = ["anchor points are generic (no path length falls on an integer sample)", "CPU only"]

ANCH = [(0.31, 0.27, 0.41), (0.73, 0.61, 0.18), (0.12, 0.83, 0.57)]
MANCH = [(0.62, 0.47, 0.23), (0.19, 0.71, 0.66)]


def cases(tier):
    deep = tier == "thorough"
    for dim in (2, 3):
        tmax = {(1, 1): 4, (2, 1): 3, (1, 2): 3, (2, 2): 2} if not deep else {(1, 1): 5, (2, 1): 4, (1, 2): 4, (2, 2): 3}
        for (ns, nm), tm in tmax.items():
            for T in range(1, tm + 1):
                pts = 3 if ns * T <= 4 else 2
                for s in itertools.product(range(pts), repeat=ns * T):
                    if nm == 1 and T > 2 and ns == 1:
                        ms = [(0, 1) * 4, (1, 0, 0, 1, 1)]
                        ms = [m[: nm * T] for m in ms]
                    else:
                        ms = list(itertools.product(range(2), repeat=nm * T))
                        if len(ms) * pts ** (ns * T) > 700 and not deep:
                            ms = ms[:: max(1, len(ms) // 4)] + [ms[-1]]
                    yield dict(k="hist", dim=dim, T=T, ns=ns, nm=nm, s=s, ms=ms)
    pats = ["omni", "cardioid", "bidir", "homni", "subcardioid", "hypercardioid"]
    for dim, sp, mp in itertools.product((2, 3), pats, pats):
        for of in range(4):
            yield dict(k="dir", dim=dim, sp=sp, mp=mp, of=of)
    for dim, hpf, lut, dt, fdl, nb, order in itertools.product(
        (2, 3), (False, True), (False, True), ("f32", "f64"), (1, 5, 81), (False, True), (0, 2, 3)
    ):
        yield dict(k="set", dim=dim, hpf=hpf, lut=lut, dt=dt, fdl=fdl, nb=nb, order=order)
    # performance settings under which a step's images are split up, in weak, strong and cut responses
    for dim, ic, ac, b, lut in itertools.product((2, 3), (1, 2, 3, 5, 24, 2048), (1, 2, 5, 4096), range(3), (False, True)):
        yield dict(k="split", dim=dim, ic=ic, ac=ac, b=b, lut=lut)
    # long trajectories, every step elsewhere
    for dim, T in itertools.product((2, 3), (9, 16, 17, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300, 513, 1000, 1025) + ((2049, 4097) if deep else ())):
        yield dict(k="long", dim=dim, T=T)
    # directions missing or misshapen on either side
    for dim, sp, mp in itertools.product((2, 3), pats[:3] + [None], pats[:3] + [None]):
        yield dict(k="none", dim=dim, sp=sp, mp=mp)


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


def _traj(anch, size, idx, T, n):
    p = points(anch, size, len(anch))
    return torch.tensor([[p[idx[t * n + i]] for i in range(n)] for t in range(T)], dtype=torch.float64)


def _room(size, dt=torch.float64, **kw):
    beta = [0.93, 0.81, 0.77, 0.69, 0.57, 0.43][: 2 * len(size)]
    return Room.shoebox(size=list(size), fs=8000, beta=beta, dtype=dt, **kw)


def _compare(ctx, room, st, mt, n, what, tol=1e-9, **kw):
    dyn = simulate_dynamic_rir(room=room, src_traj=st, mic_traj=mt, nsample=n, **kw)
    ctx.count()
    s3 = st if st.ndim == 3 else st.unsqueeze(1)
    m3 = mt if mt.ndim == 3 else mt.unsqueeze(1)
    want_shape = (s3.shape[0], s3.shape[1], m3.shape[1], n)
    if not ctx.check(tuple(dyn.shape) == want_shape, f"{what}: shape {tuple(dyn.shape)}, expected {want_shape}"):
        return dyn
    for t in range(s3.shape[0]):
        sta = simulate_rir(room=room, sources=s3[t], mics=m3[t], nsample=n, **kw)
        scale = max(1.0, float(sta.abs().max()))
        if not same(dyn[t], sta, tol * scale):
            ctx.fail(f"{what}: step {t} differs from the static response by {float((dyn[t]-sta).abs().max()):.3g}")
        ctx.check(dyn.dtype == sta.dtype, f"{what}: dtype {dyn.dtype} vs static {sta.dtype}")
    ctx.note(dyn.double().numpy().round(6).tobytes())
    return dyn


def _hist(case, ctx):
    dim, T, ns, nm = case["dim"], case["T"], case["ns"], case["nm"]
    size = SIZES[dim][0]
    room = _room(size)
    st = _traj(ANCH, size, case["s"], T, ns)
    for m in case["ms"]:
        mt = _traj(MANCH, size, m, T, nm)
        kw = dict(max_order=2, config=cfg(frac_delay_length=11))
        dyn = _compare(ctx, room, st, mt, 250, f"{dim}D T={T} src={case['s']} mic={m}", **kw)
        if ns == 1 or nm == 1:
            d2 = simulate_dynamic_rir(
                room=room, src_traj=st[:, 0] if ns == 1 else st, mic_traj=mt[:, 0] if nm == 1 else mt, nsample=250, **kw)
            ctx.check(same(dyn, d2, 1e-12), f"(steps, dim) form differs: {case['s']}/{m}")
        if T > 1:
            d3 = simulate_dynamic_rir(room=room, src_traj=st.flip(0), mic_traj=mt.flip(0), nsample=250, **kw)
            ctx.check(same(dyn.flip(0), d3, 1e-12), f"reversing the steps does not reverse the result: {case['s']}/{m}")
            d4 = simulate_dynamic_rir(room=room, src_traj=st[1::2], mic_traj=mt[1::2], nsample=250, **kw)
            ctx.check(same(dyn[1::2], d4, 1e-12), f"a subset of steps gives other responses: {case['s']}/{m}")


def _ori(dim, of, n, rot):
    a = [0.3 + rot, 2.1 + rot, -1.2 + rot]
    if dim == 2:
        return [
            torch.tensor([[3 * torch.cos(torch.tensor(x)), 3 * torch.sin(torch.tensor(x))] for x in a[:n]]),
            torch.tensor(a[0]),
            torch.tensor([[x] for x in a[:n]]),
            torch.tensor([0.6, -0.8]),
        ][of].double()
    v = [(1.0, 2.0, -0.5 + rot), (-2.0, 0.3, 0.9), (0.1, -1.0, 4.0)]
    return [
        torch.tensor(v[:n]),
        torch.tensor(v[0]),
        torch.tensor([(x, x / 3) for x in a[:n]]),
        torch.tensor((a[0], -0.4)),
    ][of].double()


def _dir(case, ctx):
    dim, of = case["dim"], case["of"]
    size = SIZES[dim][0]
    room = _room(size)
    # steps equal to, below and above the entity counts, so that no axis can stand in for another
    for ns, nm, T in itertools.product((1, 2, 3), (1, 2, 3), (1, 2, 3)):
        if case["sp"] != case["mp"] and (ns, nm) not in ((1, 3), (3, 1), (2, 2), (3, 3)):
            continue
        st = _traj(ANCH, size, [(2 * t + i) % 3 for t in range(T) for i in range(ns)], T, ns)
        mt = _traj(MANCH + [(0.45, 0.2, 0.8)], size, [(t + i) % 3 for t in range(T) for i in range(nm)], T, nm)
        _compare(ctx, room, st, mt, 200, f"{dim}D {case['sp']}/{case['mp']} form {of} T={T} ns={ns} nm={nm}",
                 max_order=1, directivity=(case["sp"], case["mp"]),
                 orientation=(_ori(dim, of, ns, 0.0), _ori(dim, of, nm, 0.5)),
                 config=cfg(frac_delay_length=11))


def _set(case, ctx):
    dim, dt = case["dim"], DT[case["dt"]]
    size = SIZES[dim][1]
    room = _room(size, dt)
    st, mt = _traj(ANCH, size, (0, 1, 2, 0, 1, 1), 3, 2).to(dt), _traj(MANCH, size, (0, 1, 1, 1, 1, 0), 3, 2).to(dt)
    conf = cfg(frac_delay_length=case["fdl"], rir_hpf_enable=case["hpf"], use_lut=case["lut"], rir_hpf_fc=30.0)
    nb = ((1, 0, 2)[:dim] if case["nb"] else None)
    for n in (12, 333):
        _compare(ctx, room, st, mt, n, str(case), tol=1e-9 if dt == torch.float64 else 2e-5,
                 max_order=case["order"], nb_img=nb, config=conf)


def _long(case, ctx):
    dim, T = case["dim"], case["T"]
    size = SIZES[dim][0]
    room = Room.shoebox(size=list(size), fs=2000, beta=[0.93, 0.81, 0.77, 0.69, 0.57, 0.43][: 2 * dim], dtype=torch.float64)
    w = torch.arange(T, dtype=torch.float64)
    sz = torch.tensor(size, dtype=torch.float64)
    ph = torch.tensor([0.37, 0.61, 0.23][:dim], dtype=torch.float64)
    path = lambda k: sz * (0.5 + 0.4 * torch.sin(w[:, None] * (0.11 + 0.01 * k) + ph * (5 + k)))
    for ns, nm in ((1, 1), (2, 1), (1, 3), (3, 2)):
        if T > 300 and ns * nm > 3:
            continue
        st, mt = torch.stack([path(k) for k in range(ns)], 1), torch.stack([path(7 + k) for k in range(nm)], 1)
        conf = cfg(frac_delay_length=11, use_lut=True)
        kw = dict(room=room, max_order=1, nsample=60, config=conf)
        dyn = simulate_dynamic_rir(src_traj=st, mic_traj=mt, **kw)
        ctx.count()
        if not ctx.check(tuple(dyn.shape) == (T, ns, nm, 60), f"{case} {ns}x{nm}: shape {tuple(dyn.shape)}"):
            continue
        for t in range(T):
            sta = simulate_rir(sources=st[t], mics=mt[t], **kw)
            if not ctx.check(same(dyn[t], sta, 1e-9 * max(1.0, float(sta.abs().max()))), f"{case} {ns}x{nm}: step {t} differs from the static response by {float((dyn[t]-sta).abs().max()):.3g}"):
                break
        ctx.note((T, ns, nm, dyn.numpy().round(6).tobytes()))


def _none(case, ctx):
    """A trajectory is answered or refused exactly as each of its steps would be."""
    dim, sp, mp = case["dim"], case["sp"], case["mp"]
    size = SIZES[dim][0]
    room = _room(size)
    T = 3
    for ns, nm in ((1, 1), (2, 1), (1, 2), (2, 3)):
        st = _traj(ANCH, size, [(2 * t + i) % 3 for t in range(T) for i in range(ns)], T, ns)
        mt = _traj(MANCH + [(0.45, 0.2, 0.8)], size, [(t + i) % 3 for t in range(T) for i in range(nm)], T, nm)
        a, b = _ori(dim, 1 if dim == 3 else 3, ns, 0.0), _ori(dim, 3, nm, 0.5)
        rows, mrows = _ori(dim, 0, ns, 0.1), _ori(dim, 0, nm, 0.2)
        for k, o in enumerate((None, (None, None), (a, None), (None, b), (a, b), [a, b], a, b, (rows, None), (None, mrows), rows, mrows, (a, b, a), (a,), (), torch.zeros(dim).double(), (a, torch.zeros(dim).double()))):
            for d in ((sp, mp), sp, None) if sp and mp else ((sp or mp), None):
                kw = dict(room=room, max_order=1, nsample=120, directivity=d, orientation=o, config=cfg(frac_delay_length=11))
                res, exc = [], []
                for t in range(T):
                    try:
                        res.append(simulate_rir(sources=st[t], mics=mt[t], **kw))
                    except Exception as e:
                        exc.append(e)
                what = f"{case} {ns}x{nm} directivity {d} orientation #{k}"
                ctx.count()
                try:
                    dyn = simulate_dynamic_rir(src_traj=st, mic_traj=mt, **kw)
                except Exception as e:
                    ctx.check(exc and isinstance(e, type(exc[0])), f"{what}: static {'refuses with ' + repr(exc[0]) if exc else 'answers'}, dynamic raises {e!r}")
                    ctx.note((what, type(e).__name__))
                    continue
                if ctx.check(not exc, f"{what}: dynamic answers what static refuses with {exc[:1]}"):
                    ctx.check(same(dyn, torch.stack(res), 1e-9), f"{what}: dynamic and static differ")
                    ctx.note((what, dyn.numpy().round(6).tobytes()))


def _split(case, ctx):
    dim = case["dim"]
    size = SIZES[dim][0]
    beta = [[0.93, 0.81, 0.77, 0.69, 0.57, 0.43], [0.02, 0.9, 0.0, 0.3, 0.01, 0.6], [1.0, 0.0, 1.0, 0.05, 0.0, 1.0]][case["b"]]
    room = Room.shoebox(size=list(size), fs=8000, beta=beta[: 2 * dim], dtype=torch.float64)
    st, mt = _traj(ANCH, size, (0, 1, 2, 0), 2, 2), _traj(MANCH, size, (0, 1, 1, 0), 2, 2)
    whole = cfg(frac_delay_length=11, use_lut=case["lut"])
    parts = cfg(frac_delay_length=11, use_lut=case["lut"], image_chunk_size=case["ic"], accumulate_chunk_size=case["ac"])
    for n in (40, 90, 400):
        kw = dict(room=room, max_order=2, nsample=n)
        dyn = simulate_dynamic_rir(src_traj=st, mic_traj=mt, config=parts, **kw)
        ctx.count()
        for t in range(2):
            sta = simulate_rir(sources=st[t], mics=mt[t], config=whole, **kw)
            ctx.check(same(dyn[t], sta, 1e-10), f"{case} n={n}: step {t} differs from the static response")
        ctx.note((n, dyn.numpy().round(6).tobytes()))
