"""P11: trajectory-mode convolution = every segment filtered by its own step's response."""

import itertools
import math
from fractions import Fraction

import numpy as np
import torch

import torchrir.signal.dynamic as dyn_mod
from mc import convvals, ref
from mc.core import Skip, raises

from torchrir.signal import DynamicConvolver

ID = "P11"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of sample counts, step counts, timestamp grids and shapes on the real code against schoolbook segment convolution"
NOTE = (
    "The operator is bilinear: an impulse at every signal position with a distinct response per step shows exactly which "
    "step filtered which sample, so the partition is decided for every (samples, steps) pair and every timestamp grid in the bound."
)
RULE = (
    "all sample counts 1..20 x step counts 1..20 (thorough 1..40), ramps with distinct responses per step; up to 3000 steps and 300001 samples (thorough 2880000); all "
    "non-decreasing timestamp grids of up to 4 steps over a half-sample grid on up to 5 samples; all signals and responses over {zero, one, weak, equal, other} on small shapes; the batched path on the "
    "same inputs; every grid of up to 4 whole-sample timestamps that runs backwards, is not a number or leaves the signal; every rank and count combination. Non-trivial: distinct (shape, partition, output digest)."
)
ASSUMPTIONS = [
    "segment starts may be floored from the exact or the floating-point product",
    "timestamps past the end of the signal may be refused or cut at the end",
    "rounding 1e-10 (float64) / 1e-4 (float32); CPU only (the accelerator path is run on the CPU by calling it directly)",
]


def cases(tier):
    top = 20 if tier == "quick" else 40
    for n in range(1, top + 1):
        yield dict(k="grid", n=n, top=top)
    for n in range(1, 6 if tier == "quick" else 7):
        for t in range(1, 5):
            yield dict(k="ts", n=n, t=t)
    for ns, nm in itertools.product((1, 2, 3), (1, 2, 3)):
        yield dict(k="shape", ns=ns, nm=nm)
    for ns, nm in itertools.product((1, 4, 5, 9, 17, 33, 65, 130), repeat=2):
        if 4 <= ns * nm <= 700:
            yield dict(k="counts", ns=ns, nm=nm)
    for part in range(16):
        yield dict(k="vals", part=part, deep=tier != "quick")
    yield dict(k="refuse")
    for n in range(1, 6 if tier == "quick" else 7):
        for t in (2, 3, 4):
            yield dict(k="order", n=n, t=t)
    for n in (1000, 4096, 5003, 65537, 300001) + (() if tier == "quick" else (1000003, 2880000)):
        for form in ("even", "clock"):
            yield dict(k="long", n=n, form=form)
    for fs in (8000, 16000, 44100, 3, 0.5):
        yield dict(k="rate", fs=fs)


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


def starts_default(n, t):
    a = [math.floor(Fraction(k * n, t)) for k in range(t)]
    b = [int(k * (n / t)) for k in range(t)]
    return [a] if a == b else [a, b]


def direct(x, h, starts):
    """x (S,n), h (T,S,M,L) -> (M, n+L-1)."""
    T, S, M, L = h.shape
    n = x.shape[1]
    out = np.zeros((M, n + L - 1))
    ends = list(starts[1:]) + [n]
    for t, (a, b) in enumerate(zip(starts, ends)):
        if b <= a:
            continue
        for s in range(S):
            for m in range(M):
                out[m, a : b + L - 1] += ref.conv_full(x[s, a:b], h[t, s, m])
    return out


def judge(ctx, got, x, h, starts_list, what, dt=torch.float64, floor=1.0):
    exps = [direct(x, h, st) for st in starts_list]
    exps = [e[0] if e.shape[0] == 1 else e for e in exps]
    if tuple(got.shape) != exps[0].shape or got.dtype != dt:
        return ctx.fail(f"{what}: shape {tuple(got.shape)} {got.dtype}, expected {exps[0].shape} {dt}")
    g = got.double().numpy()
    scale = max(floor, np.abs(x).sum() * np.abs(h).max())
    tol = (1e-10 if dt == torch.float64 else 1e-4) * scale
    if not any(np.max(np.abs(g - e)) <= tol for e in exps):
        e = exps[0]
        k = np.unravel_index(np.argmax(np.abs(g - e)), e.shape)
        return ctx.fail(f"{what}: sample {k}: {g[k]:.6g}, segment sum gives {e[k]:.6g}")
    ctx.note((what.split("|")[0], np.round(exps[0], 6).tobytes()))


def resp(T, S, M, L, seed=0):
    g = torch.Generator().manual_seed(seed)
    r = torch.rand(T, S, M, L, generator=g, dtype=torch.float64) + 0.1
    r = r * (1 + torch.arange(T, dtype=torch.float64)).view(-1, 1, 1, 1)
    return r


def sig(S, n):
    return (1.0 + torch.arange(S * n, dtype=torch.float64).view(S, n)) * (-1.0) ** torch.arange(n)


def batched(x, h, starts):
    fn = getattr(dyn_mod, "_convolve_dynamic_rir_trajectory_batched", None)
    if fn is None:
        return None
    n = x.shape[1]
    w = torch.tensor(list(starts) + [n], dtype=torch.long)
    return fn(x, h, w_ini=w, w_len=w[1:] - w[:-1])


def _grid(case, ctx):
    n = case["n"]
    conv = DynamicConvolver()
    for T in range(1, case["top"] + 1):
        for L in (1, 4) if T != n else (1, 2, 3, 7):
            for S, M, dt in ((1, 1, torch.float64), (2, 2, torch.float64), (2, 1, torch.float32)):
                x, h = sig(S, n).to(dt), resp(T, S, M, L).to(dt)
                xn, hn = x.double().numpy(), h.double().numpy()
                x0, h0 = x.clone(), h.clone()
                sl = starts_default(n, T)
                judge(ctx, conv.convolve(x, h), xn, hn, sl, f"{n} samples {T} steps L {L} {S}x{M}", dt)
                ctx.check(torch.equal(x, x0) and torch.equal(h, h0), f"{n} samples {T} steps: inputs modified")
                judge(ctx, conv(x, h), xn, hn, sl, f"call {n} samples {T} steps L {L} {S}x{M}", dt)
                ctx.count(2)
                try:
                    b = batched(x, h, sl[0])
                except TypeError:
                    b = None
                if b is None:
                    ctx.bump("batched_skipped")
                else:
                    judge(ctx, b, xn, hn, sl, f"batched {n} samples {T} steps L {L} {S}x{M}", dt)
                    ctx.count()


def _ts(case, ctx):
    """All non-decreasing grids starting at 0 over half samples, fs=2 (and fs as float)."""
    n, T = case["n"], case["t"]
    x = sig(2, n)
    h = resp(T, 2, 2, 3)
    grid = [k / 2 for k in range(0, 2 * n + 1)]  # in samples
    for tail in itertools.combinations_with_replacement(grid, T - 1):
        samples = (0.0,) + tail
        starts = [math.floor(s) for s in samples]
        for fs in (2, 16000.0):
            ts = [s / fs for s in samples]
            for form in ("f64", "f32", "list"):
                if form == "f32" and fs != 2:
                    continue
                t = torch.tensor(ts, dtype=torch.float32 if form == "f32" else torch.float64) if form != "list" else ts
                exact = [math.floor(Fraction(v) * Fraction(fs)) for v in ts]
                flt = [int(v * fs) for v in ts]
                sl = [starts] if exact == flt == starts else [exact, flt]
                got = DynamicConvolver(timestamps=t, fs=fs).convolve(x, h)
                judge(ctx, got, x.numpy(), h.numpy(), sl, f"starts {samples} of {n} fs {fs} {form}")
                ctx.count()
        b = batched(x, h, starts)
        if b is not None:
            judge(ctx, b, x.numpy(), h.numpy(), [starts], f"batched starts {samples} of {n}")


def _long(case, ctx):
    """Many steps over long signals; responses of up to three taps are added sample by sample."""
    n, form = case["n"], case["form"]
    for T, (S, M, L) in itertools.product((3, 64, 100, 255, 257, 999, 1000, 1023, 1024, 1025, 1031, 2047, 3000), ((1, 1, 1), (2, 2, 3))):
        if S > 1 and T > 1000 and n < 60000:
            continue
        x, h = torch.randn(S, n, generator=torch.Generator().manual_seed(n), dtype=torch.float64), resp(T, S, M, L, seed=T)
        if form == "even":
            conv, sl = DynamicConvolver(), starts_default(n, T)
        else:
            fs = 44100
            ts = [k * (n / fs) / T * 0.97 for k in range(T)]
            conv = DynamicConvolver(timestamps=torch.tensor(ts, dtype=torch.float64), fs=fs)
            exact, flt = [math.floor(Fraction(v) * fs) for v in ts], [int(v * fs) for v in ts]
            sl = [exact] if exact == flt else [exact, flt]
        got = conv.convolve(x, h)
        ctx.count()
        what = f"{n} samples {T} steps {S}x{M}x{L} {form}"
        if not ctx.check(tuple(got.shape) == ((M, n + L - 1) if M > 1 else (n + L - 1,)) and got.dtype == torch.float64, f"{what}: shape {tuple(got.shape)} {got.dtype}"):
            continue
        g = got.reshape(M, -1).numpy()
        errs = []
        for st in sl:
            step = np.repeat(np.arange(T), np.diff(list(st) + [n]))
            want = np.zeros((M, n + L - 1))
            for s, m, l in itertools.product(range(S), range(M), range(L)):
                want[m, l : l + n] += x[s].numpy() * h[:, s, m, l].numpy()[step]
            errs.append(float(np.max(np.abs(g - want))))
        ctx.check(min(errs) <= 1e-9 * float(h.abs().max()), f"{what}: differs from the segment sum by {min(errs):.3g}")
        ctx.note((what, float(got.abs().sum())))


def _order(case, ctx):
    """Every grid of whole-sample timestamps that is not a partition: out of order (refused), past the end (refused, or cut at the end)."""
    n, T = case["n"], case["t"]
    for S, M, L in ((1, 1, 1), (1, 1, 2), (2, 2, 3)):
        x, h = sig(S, n), resp(T, S, M, L)
        for tail in itertools.product(list(range(-1, n + 3)) + [math.nan], repeat=T - 1):
            ts = (0,) + tail
            asc = all(a <= b for a, b in zip(ts, ts[1:]))
            if asc and max(ts) <= n:
                continue
            what = f"starts {ts} of {n} L {L}"
            box = []
            conv = DynamicConvolver(timestamps=torch.tensor(ts, dtype=torch.float64), fs=1)
            ctx.count()
            if not asc:
                ctx.check(raises(lambda: box.append(conv.convolve(x, h)), ValueError), f"{what}: out of order or not a number, accepted")
                continue
            try:
                got = conv.convolve(x, h)
            except Exception:
                ctx.note(("past", ts))
                continue
            judge(ctx, got, x.numpy(), h.numpy(), [[min(a, n) for a in ts]], what)


def _rate(case, ctx):
    """floor(timestamp*fs) with products that are not whole numbers."""
    fs = case["fs"]
    n = 40
    x, h = sig(1, n), resp(5, 1, 2, 3)
    for base in (0.1, 0.33, 0.5, 0.77, 0.999):
        for step in (1.0, 3.3, 7.61):
            samples = [0.0] + [base + k * step for k in range(4)]
            ts = [s / fs for s in samples]
            exact = [math.floor(Fraction(v) * Fraction(fs)) for v in ts]
            got = DynamicConvolver(timestamps=torch.tensor(ts, dtype=torch.float64), fs=fs).convolve(x, h)
            judge(ctx, got, x.numpy(), h.numpy(), [exact], f"starts {samples} fs {fs}")
            ctx.count()


def _vals(case, ctx):
    """No sample value or response is special: zeros, weak ones, equal neighbours, everything scaled."""
    conv = DynamicConvolver()
    for x, h in convvals.dynamic_pairs(case["part"], 16, case["deep"]):
        (S, n), T = x.shape, h.shape[0]
        for g in (1.0, 1e-12):
            a = x * g
            judge(ctx, conv.convolve(a, h), a.numpy(), h.numpy(), starts_default(n, T), f"values {x.tolist()} {h.tolist()} x{g}", floor=1e-30)
        ts = torch.arange(T, dtype=torch.float64)
        judge(ctx, DynamicConvolver(timestamps=ts, fs=1).convolve(x, h), x.numpy(), h.numpy(), [list(range(T))], f"timed values {x.tolist()} {h.tolist()}", floor=1e-30)
        ctx.count(3)


def _shape(case, ctx):
    ns, nm = case["ns"], case["nm"]
    n, T, L = 11, 4, 3
    conv = DynamicConvolver()
    for xs in ((n,), (1, n), (ns, n), (ns + 1, n)):
        for hs in ((T, L), (T, nm, L), (T, ns, nm, L), (T, 1, nm, L)):
            x = torch.randn(*xs, generator=torch.Generator().manual_seed(1), dtype=torch.float64)
            h = torch.randn(*hs, generator=torch.Generator().manual_seed(2), dtype=torch.float64)
            h4 = h.view(T, 1, 1, L) if h.ndim == 2 else (h.view(T, 1, nm, L) if h.ndim == 3 else h)
            x2 = x.view(1, -1) if x.ndim == 1 else x
            ok = x2.shape[0] in (1, h4.shape[1])
            box = []
            exc = raises(lambda: box.append(conv.convolve(x, h)), ValueError)
            ctx.count()
            if ctx.check((exc is None) == ok, f"signal {xs} responses {hs}: {'refused' if exc else 'accepted'}") and ok:
                xe = np.repeat(x2.numpy(), h4.shape[1], 0) if x2.shape[0] == 1 else x2.numpy()
                judge(ctx, box[0], xe, h4.numpy(), starts_default(n, T), f"{xs} * {hs}")
                for form in ("strided", "mixed"):
                    a = torch.stack([x, x], -1)[..., 0] if form == "strided" else x.float()
                    b = torch.stack([h, -h], -1)[..., 0] if form == "strided" else h
                    dt = a.dtype
                    judge(ctx, conv.convolve(a, b), xe, h4.numpy(), starts_default(n, T), f"{xs} * {hs} {form}", dt)


def fast_direct(x, h, starts):
    T, S, M, L = h.shape
    n = x.shape[1]
    out = np.zeros((M, n + L - 1))
    ends = list(starts[1:]) + [n]
    for t, (a, b) in enumerate(zip(starts, ends)):
        for k in range(L if b > a else 0):
            out[:, a + k : b + k] += h[t, :, :, k].T @ x[:, a:b]
    return out


def _counts(case, ctx):
    """Dozens of sources and microphones, through every path."""
    ns, nm = case["ns"], case["nm"]
    g = torch.Generator().manual_seed(ns * 1000 + nm)
    for n, T, L, mono, dt in ((11, 4, 3, False, torch.float64), (40, 7, 5, True, torch.float64), (23, 40, 2, False, torch.float32), (64, 2, 9, False, torch.float64)):
        x = torch.randn(1 if mono else ns, n, generator=g, dtype=torch.float64).to(dt)
        h = torch.randn(T, ns, nm, L, generator=g, dtype=torch.float64).to(dt)
        xe = x.double().numpy().repeat(ns, 0) if mono else x.double().numpy()
        for st in starts_default(n, T)[:1]:
            e = fast_direct(xe, h.double().numpy(), st)
            tol = (1e-10 if dt == torch.float64 else 1e-4) * max(1.0, np.abs(xe).sum() * float(h.abs().max()))
            outs = {"trajectory": DynamicConvolver().convolve(x, h), "batched": batched(x if not mono else x.expand(ns, n).contiguous(), h, st)}
            for name, got in outs.items():
                ctx.count()
                if got is None:
                    continue
                want = e[0] if nm == 1 else e
                g_ = got.double().numpy()
                ok = g_.size == want.size and got.dtype == dt and np.max(np.abs(g_.reshape(want.shape) - want)) <= tol
                ctx.check(ok and (name == "batched" or g_.shape == want.shape), f"{case} {name}: {n} samples {T} steps {L} taps mono {mono} {dt}: differs from the segment sum")
            ctx.note((ns, nm, n, T, float(np.abs(e).sum())))


def _refuse(case, ctx):
    x, h = sig(1, 10), resp(3, 1, 1, 2)
    T = lambda *v: torch.tensor(v, dtype=torch.float64)
    ok = T(0, 1, 2)
    bad = [
        (DynamicConvolver(timestamps=ok), x, h), (DynamicConvolver(timestamps=T(0, 1), fs=2), x, h),
        (DynamicConvolver(timestamps=T(0, 1, 2, 3), fs=2), x, h), (DynamicConvolver(timestamps=T(1, 2, 3), fs=2), x, h),
        (DynamicConvolver(timestamps=T(1e-9, 2, 3), fs=2), x, h), (DynamicConvolver(timestamps=T(-1, 2, 3), fs=2), x, h),
        (DynamicConvolver(timestamps=ok.view(1, 3), fs=2), x, h), (DynamicConvolver(timestamps=ok.view(3, 1), fs=2), x, h),
        (DynamicConvolver(timestamps=torch.tensor(0.0), fs=2), x, resp(1, 1, 1, 2)),
        (DynamicConvolver(mode="steps"), x, h), (DynamicConvolver(mode=""), x, h), (DynamicConvolver(mode="Trajectory"), x, h),
        (DynamicConvolver(), x[None], h), (DynamicConvolver(), torch.tensor(1.0, dtype=torch.float64), h),
        (DynamicConvolver(), x, h[0, 0, 0]), (DynamicConvolver(), x, h[None]),
        (DynamicConvolver(), sig(2, 10), resp(3, 3, 1, 2)), (DynamicConvolver(), sig(3, 10), resp(3, 2, 1, 2)),
        (DynamicConvolver(), sig(2, 10), resp(3, 1, 2, 2)), (DynamicConvolver(), sig(2, 10), resp(3, 1, 2, 2)[:, 0]),
        (DynamicConvolver(), sig(2, 10), resp(3, 1, 2, 2)[:, 0, 0]),
    ]
    for k, (c, a, b) in enumerate(bad):
        ctx.check(raises(lambda: c.convolve(a, b), ValueError), f"accepted #{k}: {c}, signal {tuple(a.shape)}, responses {tuple(b.shape)}")
        ctx.count()
        ctx.note(k)
    # fs alone changes nothing
    a = DynamicConvolver(fs=8000).convolve(x, h)
    ctx.check(torch.equal(a, DynamicConvolver().convolve(x, h)), "fs without timestamps changes the result")
