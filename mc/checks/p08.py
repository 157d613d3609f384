"""P08: specular part untouched before the diffuse switch, seeded exponential noise after it."""

import itertools
import math

import torch

from mc.procstate import ambient_state
from mc.simlib import *  # noqa: F403
from mc.simlib import DT, SIZES, cfg, room_beta, tens

ID = "P08"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of switch times, lengths, seeds and rooms on the real code against a relational oracle (envelope-normalised noise must not depend on the room)"
NOTE = (
    "For every switch sample of short responses the prefix must equal the run without a tail bit for bit, and the tail "
    "divided by the reference envelope must be one and the same noise for every room, geometry and T60 with that seed and shape."
)
RULE = (
    "every switch index 0..n+2 for n in {2,3,9,40} (thorough more), between and on samples, x seeds {None,0,1,7} x rooms "
    "(per-wall, T60 to 25 s, nearly lossless, clamped, lossless, 2D, 3D) x dtypes; 300 consecutive seeds and every single-bit change of 32 bits; with tmax only / tmax and nsample. Non-trivial: a tail was written; "
    "distinct by its samples."
)
ASSUMPTIONS = [
    "the noise generator itself is not specified: it must be room-independent, seed-dependent and roughly unit variance",
    "60 dB per T60 is checked as exp(-6.9078 t/T60) to 1e-4 relative",
]

SEEDS = (None, 0, 1, 7)


def _rooms(dim, dt, fs):
    sz = SIZES[dim]
    full = [0.93, 0.81, 0.74, 0.66, 0.88, 0.59][: 2 * dim]
    out = {
        "walls": (sz[0], dict(beta=full)),
        "walls2": (sz[1], dict(beta=full[::-1])),
        "t60": (sz[0], dict(t60=0.35)),
        "t60b": (sz[1], dict(t60=0.9)),
        "dead": (sz[1], dict(beta=[0.0] * (2 * dim))),
        "live": (sz[0], dict(beta=[0.9995] * (2 * dim))),
        "liver": (sz[1], dict(beta=[0.99999] * (2 * dim))),
        "t60c": (sz[0], dict(t60=25.0)),
        "lossless": (sz[0], dict()),
    }
    return {k: (s, kw, Room.shoebox(size=list(s), fs=fs, dtype=dt, **kw)) for k, (s, kw) in out.items()}


def sabine_t60(size, kw):
    dim = len(size)
    if kw.get("t60") is not None:
        beta = room_beta(size, kw)
    elif kw.get("beta") is not None:
        beta = kw["beta"]
    else:
        return math.inf
    if dim == 2:
        lx, ly = size
        v, areas = lx * ly, [ly, ly, lx, lx]
    else:
        lx, ly, lz = size
        v, areas = lx * ly * lz, [ly * lz, ly * lz, lx * lz, lx * lz, lx * ly, lx * ly]
    a = sum(s * (1 - b * b) for s, b in zip(areas, beta))
    return math.inf if a <= 0 else 0.161 * v / a


def cases(tier):
    for dim, dt, fs in itertools.product((2, 3), ("f32", "f64"), (8000, 16000.0)):
        for n in (2, 3, 9, 40) if tier == "quick" else (2, 3, 4, 5, 9, 17, 40, 101):
            yield dict(k="switch", dim=dim, dt=dt, fs=fs, n=n)
        yield dict(k="long", dim=dim, dt=dt, fs=fs)
        yield dict(k="off", dim=dim, dt=dt, fs=fs)
    for dim, (ns, nm) in itertools.product((2, 3), ((1, 9), (9, 1), (5, 5), (17, 16), (1, 300), (300, 1), (33, 33))):
        yield dict(k="pairs", dim=dim, ns=ns, nm=nm)
    for dim, n in itertools.product((2, 3), (4097, 20000, 65537)):
        yield dict(k="far", dim=dim, n=n)
    for dim, base in itertools.product((2, 3), (0, 1, 12345, 2**31 + 7)):
        yield dict(k="seeds", dim=dim, base=base)


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


def _geo(size, dt):
    # direct path inside the first samples so that the switch level is rarely zero
    s = [tuple(0.31 * v for v in size), tuple(0.57 * v for v in size)]
    m = [tuple(x + 0.043 for x in s[0]), tuple(x + 0.081 for x in s[1]), tuple(0.44 * v for v in size)]
    return tens(s, dt), tens(m, dt)


def _tail(ctx, spec, got, idx, size, kw, fs, what):
    """Prefix check, then return the envelope-normalised noise (None where the start level is ~0)."""
    if got.shape != spec.shape or got.dtype != spec.dtype:
        ctx.fail(f"{what}: shape/dtype changed to {tuple(got.shape)} {got.dtype}")
        return None
    if not torch.equal(got[..., :idx], spec[..., :idx]):
        ctx.fail(f"{what}: samples before the switch {idx} differ from the specular response")
        return None
    if not torch.isfinite(got).all():
        ctx.fail(f"{what}: non-finite tail")
        return None
    t60 = sabine_t60(size, kw)
    if math.isinf(t60):
        return None
    t = torch.arange(got.shape[-1] - idx, dtype=torch.float64) / fs
    level = spec[..., idx - 1 : idx].double().abs()
    # undo the envelope; the implementation may keep a tiny floor under the level
    return got[..., idx:].double() / (torch.exp(-t * math.log(1000.0) / t60)), level


def _run(room, S, M, n, fs, tdiff, seed, tmax=None, nsample=None, **kw):
    return simulate_rir(room=room, sources=S, mics=M, max_order=2, tmax=tmax if tmax is not None else (n - 0.5) / fs,
                        nsample=nsample, tdiff=tdiff, config=cfg(frac_delay_length=5, seed=seed, **kw))


def _switch(case, ctx):
    dim, dt, fs, n = case["dim"], DT[case["dt"]], case["fs"], case["n"]
    rooms = _rooms(dim, dt, fs)
    for idx in range(0, n + 3):
        for off in (0.5, 0.25) if n > 9 else (0.5, 0.03, 0.97):
            tdiff = (idx + off) / fs
            for seed in SEEDS:
                noises = {}
                for rn, (size, kw, room) in rooms.items():
                    S, M = _geo(size, dt)
                    tmax = (n + 40) / fs  # an explicit length shorter than tmax
                    base = simulate_rir(room=room, sources=S, mics=M, max_order=2, nsample=n, tmax=tmax, config=cfg(frac_delay_length=5, seed=seed))
                    amb = ambient_state()
                    got = _run(room, S, M, n, fs, tdiff, seed, tmax=tmax, nsample=n)
                    what = f"{rn} {case} switch {tdiff * fs:.2f} seed {seed}"
                    ctx.check(ambient_state() == amb, f"{what}: global random state disturbed")
                    ctx.count()
                    if idx == 0 or idx >= n:
                        ctx.check(torch.equal(got, base), f"{what}: a switch outside the response changed it")
                        continue
                    ctx.check(torch.equal(got, _run(room, S, M, n, fs, tdiff, seed, tmax=tmax, nsample=n)), f"{what}: not deterministic")
                    if seed is None:
                        torch.manual_seed(idx + 99)
                        torch.rand(3)
                        ctx.check(torch.equal(got, _run(room, S, M, n, fs, tdiff, seed, tmax=tmax, nsample=n)), f"{what}: depends on the global random state")
                    r = _tail(ctx, base, got, idx, size, kw, fs, what)
                    if r is None:
                        continue
                    noise, level = r
                    noises[rn] = (noise, level)
                    ctx.note((case, idx, off, seed, rn, round(float(noise.abs().sum()), 9)))
                # noise / level must agree between rooms wherever both levels are audible
                ref_n = None
                for rn, (noise, level) in noises.items():
                    ok = level > 1e-4
                    unit = noise / (level + 1e-8)
                    if ref_n is None:
                        ref_n = (rn, unit, ok)
                        continue
                    both = (ok & ref_n[2]).expand_as(unit)
                    if both.any():
                        a, b = unit[both], ref_n[1][both]
                        tol = 2e-4 * b.abs().clamp(min=1e-3)
                        if not bool(torch.all((a - b).abs() <= tol)):
                            ctx.fail(f"{case} switch {idx}+{off} seed {seed}: the tail of room {rn} is not the same noise times its own "
                                     f"envelope as in room {ref_n[0]} (ratio {float((a / b).median()):.6g})")
                            return


def _long(case, ctx):
    """Statistics, seeds and pair independence on a long tail; tmax-only length; scene simulator agrees."""
    dim, dt, fs = case["dim"], DT[case["dt"]], case["fs"]
    rooms = _rooms(dim, dt, fs)
    for rn, (size, kw, room) in rooms.items():
        S, M = _geo(size, dt)
        n = 900
        for sw in (60, 131, 500):
            tails = {}
            for seed in SEEDS:
                got = _run(room, S, M, n, fs, (sw + 0.5) / fs, seed)
                base = simulate_rir(room=room, sources=S, mics=M, max_order=2, tmax=(n - 0.5) / fs, config=cfg(frac_delay_length=5))
                what = f"{rn} {case} switch {sw} seed {seed}"
                ctx.count()
                r = _tail(ctx, base, got, sw, size, kw, fs, what)
                tails[seed] = got[..., sw:]
                ctx.note((what, float(got[..., sw:].abs().sum())))
                if r is None:
                    if rn == "lossless":
                        # the envelope starts at the last specular level and never grows far above it
                        lev = base[..., sw - 1 : sw].abs() + 1e-7
                        ctx.check(bool((got[..., sw:].abs() <= 7 * lev).all()), f"{what}: tail louder than its start level allows")
                    continue
                noise, level = r
                for i in range(2):
                    for j in range(3):
                        if level[i, j] < 1e-4:
                            continue
                        u = noise[i, j] / level[i, j]
                        t60 = sabine_t60(size, kw)
                        # samples still well above the float range
                        k = min(u.numel(), int(60 * t60 * fs / 6.9))
                        if k < 150:
                            continue
                        u = u[:k]
                        ctx.check(abs(float(u.mean())) < 0.35 and 0.7 < float(u.std()) < 1.35,
                                  f"{what} pair {i},{j}: tail does not start at the last specular level (std {float(u.std()):.4g})")
                        a, b = u[: k // 2].std(), u[k // 2 :].std()
                        ctx.check(0.6 < float(a / b) < 1.67, f"{what} pair {i},{j}: envelope is not 60 dB per T60")
                flat = (noise / level.clamp(min=1e-12)).reshape(6, -1)
                for p, q in itertools.combinations(range(6), 2):
                    ctx.check(not torch.allclose(flat[p][:50], flat[q][:50], rtol=1e-3), f"{what}: pairs {p} and {q} share their noise")
            if rn != "dead":
                for a, b in itertools.combinations((0, 1, 7), 2):
                    ctx.check(not torch.equal(tails[a], tails[b]), f"{rn} {case} switch {sw}: seeds {a} and {b} give the same tail")


def _seeds(case, ctx):
    """No two seeds of a neighbourhood share their noise: every single bit of the generator's seed, and runs of seeds."""
    dim, base = case["dim"], case["base"]
    size, kw, room = _rooms(dim, torch.float64, 8000)["walls"]
    S, M = _geo(size, torch.float64)
    seen = {}
    for seed in sorted({base} | {base ^ (1 << k) for k in range(32)} | {base + k for k in range(300)}):
        got = [_run(room, S[:1], M[:1], 100, 8000, 60.5 / 8000, seed) for _ in range(2)]
        ctx.count(2)
        ctx.check(torch.equal(*got), f"seed {seed}: not deterministic")
        key = got[0].numpy().tobytes()
        ctx.check(key not in seen, f"{case}: seeds {seed} and {seen.get(key)} give the same tail")
        seen[key] = seed
        ctx.note((dim, seed, key))


def _pairs(case, ctx):
    """Hundreds of source-microphone pairs, every one with noise of its own."""
    dim, ns, nm = case["dim"], case["ns"], case["nm"]
    size, kw, room = _rooms(dim, torch.float64, 8000)["walls"]

    def spread(n, a):
        return torch.tensor([[(0.1 + 0.8 * ((a * (i + 1) * (j + 2)) % 1.0)) * size[j] for j in range(dim)] for i in range(n)], dtype=torch.float64)

    S, M = spread(ns, 0.381966), spread(nm, 0.618034)
    sw, n = 260, 340
    got = _run(room, S, M, n, 8000, (sw + 0.5) / 8000, 5)
    base = simulate_rir(room=room, sources=S, mics=M, max_order=2, tmax=(n - 0.5) / 8000, config=cfg(frac_delay_length=5))
    ctx.count()
    if not ctx.check(torch.equal(got[..., :sw], base[..., :sw]), f"{case}: samples before the switch changed"):
        return
    noise = got[..., sw:].reshape(ns * nm, -1)
    scale = noise.abs().amax(-1)
    ctx.check(bool((scale > 0).all()) and bool(torch.isfinite(noise).all()), f"{case}: {int((scale <= 0).sum())} pairs have no tail")
    unit = noise / noise.norm(dim=-1, keepdim=True).clamp(min=1e-300)
    sim = (unit @ unit.T).abs()
    sim.fill_diagonal_(0)
    k = int(sim.argmax())
    ctx.check(float(sim.max()) < 0.8, f"{case}: pairs {k // (ns * nm)} and {k % (ns * nm)} share their noise ({float(sim.max()):.3f})")
    ctx.check(torch.equal(got, _run(room, S, M, n, 8000, (sw + 0.5) / 8000, 5)), f"{case}: not deterministic")
    ctx.note((case, float(noise.abs().sum())))


def _far(case, ctx):
    """Tails of seconds: the noise never repeats itself and decays by 60 dB per T60 to the end."""
    dim, n, fs = case["dim"], case["n"], 8000
    size = SIZES[dim][0]
    room = Room.shoebox(size=list(size), fs=fs, t60=n / fs * 1.2, dtype=torch.float64)
    S, M = _geo(size, torch.float64)
    t60 = sabine_t60(size, dict(t60=n / fs * 1.2))
    for sw in (90, n // 2, n - 300):
        if sw != 90:
            # the specular response is silent there: start level zero
            got = _run(room, S[:1], M[:1], n, fs, (sw + 0.5) / fs, 3)
            base = simulate_rir(room=room, sources=S[:1], mics=M[:1], max_order=2, tmax=(n - 0.5) / fs, config=cfg(frac_delay_length=5))
            ctx.check(torch.equal(got[..., :sw], base[..., :sw]) and bool((got[..., sw:].abs() < 1e-6).all()), f"{case} switch {sw}: noise louder than the last specular level")
            ctx.count()
            continue
        for at in range(sw, sw + 40):
            base = simulate_rir(room=room, sources=S[:1], mics=M[:1], max_order=2, tmax=(n - 0.5) / fs, config=cfg(frac_delay_length=5))
            if float(base[0, 0, at - 1].abs()) > 1e-3:
                break
        else:
            ctx.fail(f"{case}: no specular sound around the switch")
            continue
        got = _run(room, S[:1], M[:1], n, fs, (at + 0.5) / fs, 3)[0, 0].double()
        ctx.count()
        t = torch.arange(n - at, dtype=torch.float64) / fs
        u = got[at:] / float(base[0, 0, at - 1].abs()) / torch.exp(-t * math.log(1000.0) / t60)
        if not ctx.check(torch.equal(got[:at], base[0, 0, :at].double()), f"{case}: samples before the switch changed"):
            return
        for lo in range(0, len(u) - 500, max(500, len(u) // 9)):
            sd = float(u[lo : lo + 500].std())
            ctx.check(0.75 < sd < 1.3, f"{case}: {lo} samples after the switch the tail is {sd:.3g} times its envelope")
        spec = torch.fft.rfft(u, n=2 * len(u))
        corr = torch.fft.irfft(spec * spec.conj(), n=2 * len(u))[: len(u)].abs()
        m = len(u) - torch.arange(len(u))
        like = (corr / m / u.var())[1 : len(u) - 400]
        ctx.check(float(like.max()) < 0.5, f"{case}: the tail repeats itself after {int(like.argmax()) + 1} samples (correlation {float(like.max()):.3f})")
        ctx.note((case, float(u.abs().sum())))


def _off(case, ctx):
    """Requests that must change nothing."""
    dim, dt, fs = case["dim"], DT[case["dt"]], case["fs"]
    for rn, (size, kw, room) in _rooms(dim, dt, fs).items():
        S, M = _geo(size, dt)
        for n, tmax, nsample in ((100, 100 / fs, None), (100, 99.5 / fs, None), (100, 50.5 / fs, 100), (100, None, 100), (100, 30.5 / fs, 100)):
            c = cfg(frac_delay_length=5, seed=3)
            base = simulate_rir(room=room, sources=S, mics=M, max_order=2, tmax=tmax, nsample=nsample, config=c)
            for td in (None, -1.0, 0.0, 0.5 / fs, tmax, (tmax or 0) + 1e-9, (tmax or 0) * 2 + 1, 1e6):
                if td is None and tmax is None:
                    continue
                if tmax is not None and td is not None and 1 / fs <= td < tmax:
                    continue
                got = simulate_rir(room=room, sources=S, mics=M, max_order=2, tmax=tmax, nsample=nsample, tdiff=td, config=c)
                ctx.check(torch.equal(got, base), f"{rn} {case} tmax {tmax} nsample {nsample}: switch time {td} changed the response")
                ctx.count()
                ctx.note((rn, case, tmax, nsample, td))
            if tmax is None:
                # no maximum time: a switch inside the response is not "earlier than the maximum time"
                got = simulate_rir(room=room, sources=S, mics=M, max_order=2, nsample=nsample, tdiff=50.5 / fs, config=c)
                ctx.check(torch.equal(got, base), f"{rn} {case}: a switch without a maximum time changed the response")
            elif tmax > 40 / fs:
                # the configuration's maximum time counts like an explicit one
                a = simulate_rir(room=room, sources=S, mics=M, max_order=2, tmax=tmax, nsample=nsample, tdiff=30.5 / fs, config=c)
                b = simulate_rir(room=room, sources=S, mics=M, max_order=2, nsample=nsample, tdiff=30.5 / fs, config=cfg(frac_delay_length=5, seed=3, tmax=tmax))
                ctx.check(torch.equal(a, b), f"{rn} {case}: tmax from the configuration is not used for the tail")
                ctx.check(not torch.equal(a, base), f"{rn} {case}: no tail written at 30.5 samples, tmax {tmax}")
                ctx.count(2)
