"""P12: hop-mode convolution = block t filtered by response t, overlap-added at t*hop."""

import itertools
import math

import numpy as np
import torch

from mc import convvals, ref
from mc.core import raises

from torchrir.signal import DynamicConvolver, convolve_rir

ID = "P12"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of sample counts, hops, step counts and shapes on the real code against schoolbook overlap-add"
NOTE = (
    "The operator is bilinear and each step has its own response, so the executed grid decides for every (samples, hop, "
    "steps) triple in the bound which block met which response and where it was added."
)
RULE = (
    "all samples 1..16 x hops 1..18 x steps 1..8 (thorough 1..24 x 1..26 x 1..12) and taps {1,2,5}; hops to 48000, 1025 blocks; all signals and responses over {zero, one, weak, equal, other} on small shapes; all source/mic counts "
    "and ranks; refusals. Non-trivial: distinct (shape, output digest)."
)
ASSUMPTIONS = ["hop is an integer", "rounding 1e-10 (float64) / 1e-4 (float32); CPU only"]


def cases(tier):
    a, b, c = (16, 18, 8) if tier == "quick" else (24, 26, 12)
    for n, hop in itertools.product(range(1, a + 1), range(1, b + 1)):
        yield dict(k="grid", n=n, hop=hop, T=c)
    for ns, nm in itertools.product((1, 2, 3), (1, 2, 3)):
        yield dict(k="shape", ns=ns, nm=nm)
    for ns, nm in itertools.product((1, 4, 5, 9, 17, 33, 65, 130), repeat=2):
        if 4 <= ns * nm <= 700:
            yield dict(k="counts", ns=ns, nm=nm)
    for part in range(16):
        yield dict(k="vals", part=part, deep=tier != "quick")
    yield dict(k="refuse")
    for hop in (100, 255, 256, 1000, 1024, 4096, 10007, 16000, 20001, 48000):
        yield dict(k="long", hop=hop)


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


def direct(x, h, hop):
    T, S, M, L = h.shape
    n = x.shape[1]
    blocks = min(-(-n // hop), T)
    out = np.zeros((M, hop * blocks + L - 1))
    for t in range(blocks):
        for s in range(S):
            seg = x[s, t * hop : (t + 1) * hop]
            if len(seg):
                for m in range(M):
                    y = ref.conv_full(seg, h[t, s, m])
                    out[m, t * hop : t * hop + len(y)] += y
    return out


def judge(ctx, got, x, h, hop, what, dt=torch.float64, floor=1.0):
    e = direct(x, h, hop)
    e = e[0] if e.shape[0] == 1 else e
    if tuple(got.shape) != e.shape or got.dtype != dt:
        return ctx.fail(f"{what}: shape {tuple(got.shape)} {got.dtype}, expected {e.shape} {dt}")
    scale = max(floor, np.abs(x).sum() * np.abs(h).max())
    err = np.max(np.abs(got.double().numpy() - e))
    if not err <= (1e-10 if dt == torch.float64 else 1e-4) * scale:
        return ctx.fail(f"{what}: differs from the block sum by {err:.3g}")
    ctx.note((what, np.round(e, 6).tobytes()))


def R(*shape, seed=0):
    return torch.randn(*shape, generator=torch.Generator().manual_seed(seed + 5), dtype=torch.float64)


def _grid(case, ctx):
    n, hop = case["n"], case["hop"]
    c = DynamicConvolver(mode="hop", hop=hop)
    for T in range(1, case["T"] + 1):
        for L in (1, 2, 5):
            for S, M, dt in ((2, 2, torch.float64), (1, 1, torch.float32)):
                x, h = R(S, n, seed=n).to(dt), R(T, S, M, L, seed=T).to(dt)
                x0, h0 = x.clone(), h.clone()
                got = c.convolve(x, h)
                judge(ctx, got, x.double().numpy(), h.double().numpy(), hop, f"{n} samples hop {hop} {T} steps L {L} {S}x{M}", dt)
                ctx.check(torch.equal(got, c(x, h)), f"{n} samples hop {hop}: call and convolve differ")
                ctx.check(torch.equal(x, x0) and torch.equal(h, h0), f"{n} samples hop {hop}: inputs modified")
                ctx.count()
        # same response everywhere: static convolution of the covered part
        x, h1 = R(2, n, seed=n), R(2, 2, 3, seed=4)
        got = c.convolve(x, h1.expand(T, 2, 2, 3))
        blocks = min(math.ceil(n / hop), T)
        cov = torch.zeros(2, hop * blocks, dtype=torch.float64)
        m = min(n, hop * blocks)
        cov[:, :m] = x[:, :m]
        want = convolve_rir(cov, h1)
        ctx.check(got.shape == want.shape and float((got - want).abs().max()) < 1e-9, f"{n} samples hop {hop} {T} steps: constant response is not static convolution")


def _vals(case, ctx):
    """No sample value or response is special: zeros, weak ones, equal neighbours, everything scaled."""
    for x, h in convvals.dynamic_pairs(case["part"], 16, case["deep"]):
        for hop, g in ((1, 1.0), (2, 1.0), (2, 1e-12), (3, 1.0), (4, 1.0)):
            a = x * g
            judge(ctx, DynamicConvolver(mode="hop", hop=hop).convolve(a, h), a.numpy(), h.numpy(), hop,
                  f"values hop {hop} {x.tolist()} {h.tolist()} x{g}", floor=1e-30)
            ctx.count()


def _shape(case, ctx):
    ns, nm = case["ns"], case["nm"]
    n, T, L, hop = 11, 4, 3, 3
    c = DynamicConvolver(mode="hop", hop=hop)
    for xs in ((n,), (1, n), (ns, n), (ns + 1, n)):
        for hs in ((T, L), (T, nm, L), (T, ns, nm, L), (T, 1, nm, L)):
            x, h = R(*xs, seed=1), R(*hs, seed=2)
            h4 = h.view(T, 1, 1, L) if h.ndim == 2 else (h.view(T, 1, nm, L) if h.ndim == 3 else h)
            x2 = x.view(1, -1) if x.ndim == 1 else x
            ok = x2.shape[0] in (1, h4.shape[1])
            box = []
            exc = raises(lambda: box.append(c.convolve(x, h)), ValueError)
            ctx.count()
            if ctx.check((exc is None) == ok, f"signal {xs} responses {hs}: {'refused' if exc else 'accepted'}") and ok:
                xe = np.repeat(x2.numpy(), h4.shape[1], 0) if x2.shape[0] == 1 else x2.numpy()
                judge(ctx, box[0], xe, h4.numpy(), hop, f"{xs} * {hs}")
                a = torch.stack([x, x], -1)[..., 0]
                judge(ctx, c.convolve(a, h), xe, h4.numpy(), hop, f"{xs} * {hs} strided")
                judge(ctx, c.convolve(x.float(), h), xe, h4.numpy(), hop, f"{xs} * {hs} mixed", torch.float32)


def _long(case, ctx):
    """Long blocks and many of them; responses of up to three taps are added sample by sample."""
    hop = case["hop"]
    for q, r, T in itertools.product((1, 2, 3, 17) + ((300, 1025) if hop <= 1024 else ()), (-1, 0, 1, hop // 2), (1, 2, 5, 18, 301, 1100)):
        n = q * hop + r
        if T > 18 and (q < 300 or T < q and T > 301) or T <= 18 and q > 300:
            continue
        for S, M, L in ((1, 1, 1), (2, 2, 3)):
            if S > 1 and T > 18:
                continue
            x, h = R(S, n, seed=n % 97), R(T, S, M, L, seed=T)
            got = DynamicConvolver(mode="hop", hop=hop).convolve(x, h)
            blocks = min(-(-n // hop), T)
            want = np.zeros((M, hop * blocks + L - 1))
            m0 = min(n, hop * blocks)
            step = np.arange(m0) // hop
            for s, m, l in itertools.product(range(S), range(M), range(L)):
                want[m, l : l + m0] += x[s, :m0].numpy() * h[:, s, m, l].numpy()[step]
            ctx.count()
            what = f"{n} samples hop {hop} {T} steps {S}x{M}x{L}"
            ok = tuple(got.shape) == (want.shape if M > 1 else want.shape[1:]) and got.dtype == torch.float64
            err = float(np.max(np.abs(got.reshape(M, -1).numpy() - want))) if ok else np.inf
            ctx.check(err <= 1e-10, f"{what}: shape {tuple(got.shape)}, differs from the block sum by {err:.3g}")
            ctx.note((what, float(got.abs().sum())))


def _counts(case, ctx):
    """Dozens of sources and microphones."""
    ns, nm = case["ns"], case["nm"]
    for n, hop, T, L, mono, dt in ((11, 3, 4, 3, False, torch.float64), (40, 6, 9, 5, True, torch.float64), (23, 1, 30, 2, False, torch.float32), (64, 40, 2, 9, False, torch.float64)):
        x, h = R(1 if mono else ns, n, seed=ns).to(dt), R(T, ns, nm, L, seed=nm).to(dt)
        xe = x.double().numpy().repeat(ns, 0) if mono else x.double().numpy()
        hn = h.double().numpy()
        blocks = min(-(-n // hop), T)
        e = np.zeros((nm, hop * blocks + L - 1))
        for t in range(blocks):
            seg = xe[:, t * hop : (t + 1) * hop]
            for k in range(L):
                e[:, t * hop + k : t * hop + k + seg.shape[1]] += hn[t, :, :, k].T @ seg
        e = e[0] if nm == 1 else e
        got = DynamicConvolver(mode="hop", hop=hop).convolve(x, h)
        ctx.count()
        ok = tuple(got.shape) == e.shape and got.dtype == dt and np.max(np.abs(got.double().numpy() - e)) <= (1e-10 if dt == torch.float64 else 1e-4) * max(1.0, np.abs(xe).sum() * np.abs(hn).max())
        ctx.check(ok, f"{case}: {n} samples hop {hop} {T} steps {L} taps mono {mono} {dt}: differs from the block sum")
        ctx.note((ns, nm, n, hop, T, float(np.abs(e).sum())))


def _refuse(case, ctx):
    x, h = R(1, 10), R(3, 1, 1, 2)
    c = DynamicConvolver(mode="hop", hop=4)
    bad = [
        (DynamicConvolver(mode="hop"), x, h), (DynamicConvolver(mode="hop", hop=None, fs=8000), x, h), (DynamicConvolver(mode="hops", hop=4), x, h),
        (DynamicConvolver(mode="HOP", hop=4), x, h), *[(DynamicConvolver(mode="hop", hop=v), x, h) for v in (0, -1, -2, -4, -10, -11)], (DynamicConvolver(mode="", hop=4), x, h),
        (c, R(2, 10), R(3, 3, 1, 2)), (c, R(3, 10), R(3, 2, 1, 2)), (c, R(2, 10), R(3, 1, 1, 2)), (c, R(2, 10), R(3, 2, 2)), (c, R(2, 10), R(3, 2)),
        (c, R(1, 1, 10), h), (c, R(10)[0], h), (c, x, R(4)), (c, x, R(1, 3, 1, 1, 2)),
    ]
    for k, (cv, a, b) in enumerate(bad):
        ctx.check(raises(lambda: cv.convolve(a, b), ValueError), f"accepted #{k}: {cv}, signal {tuple(a.shape)}, responses {tuple(b.shape)}")
        ctx.count()
        ctx.note(k)
    # timestamps and fs belong to the other mode
    a = DynamicConvolver(mode="hop", hop=4, fs=3.0).convolve(x, h)
    ctx.check(torch.equal(a, c.convolve(x, h)), "fs changes hop mode")
