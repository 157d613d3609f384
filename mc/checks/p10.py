"""P10: static convolution = sum over sources of full linear convolutions."""

import itertools

import numpy as np
import torch

from mc import convvals, ref
from mc.core import raises

from torchrir.signal import convolve_rir, fft_convolve

ID = "P10"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of lengths, counts, ranks and delta positions on the real code against schoolbook convolution"
NOTE = (
    "Convolution is bilinear, so delta inputs at every position on every source and mic, for every small length pair, "
    "decide the operator exactly on those shapes; dense inputs are added to catch input-dependent branches."
)
RULE = (
    "all signal lengths 1..24 x response lengths 1..24 (thorough 1..40) dense; all delta positions for lengths up to 9; "
    "all signals and responses over {zero, one, weak} up to 4 samples x 3 taps at 3 levels; lengths around every power of two to 2^19 (thorough 2^21); source and mic counts 0..3 in every accepted and refused rank; dtypes. Non-trivial: distinct (shape, output digest)."
)
ASSUMPTIONS = ["rounding: 1e-12 (float64) / 2e-5 (float32) relative to the product of the norms", "at least one sample, tap and mic; CPU only"]


def cases(tier):
    top = 24 if tier == "quick" else 40
    for n in range(1, top + 1):
        yield dict(k="len", n=n, top=top)
    for n in range(1, 10):
        yield dict(k="delta", n=n)
    for n, l in itertools.product((1, 5, 32, 33), (1, 4, 31, 32)):
        yield dict(k="shape", n=n, l=l)
    yield dict(k="big")
    for ns, nm in itertools.product((1, 4, 5, 9, 17, 33, 65, 130, 300), repeat=2):
        if 4 <= ns * nm <= 2500:
            yield dict(k="counts", ns=ns, nm=nm)
    for e, d in itertools.product(range(12, 20 if tier == "quick" else 22), (-1, 0, 1)):
        yield dict(k="huge", n=2**e + d)
    for n in (44100, 48000, 100000, 270000, 480000, 999983):
        yield dict(k="huge", n=n)
    for part in range(16):
        yield dict(k="vals", part=part, deep=tier != "quick")


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


def _rand(*shape, seed=0):
    return torch.randn(*shape, generator=torch.Generator().manual_seed(seed + 17), dtype=torch.float64)


def want(x, h):
    """x (S or 1, n), h (S, M, L) numpy -> (M, n+L-1)."""
    s, m, l = h.shape
    out = np.zeros((m, x.shape[1] + l - 1))
    for i in range(s):
        for j in range(m):
            out[j] += ref.conv_full(x[i if x.shape[0] > 1 else 0], h[i, j])
    return out


def judge(ctx, got, x, h, what, dtype=torch.float64, floor=1.0):
    w = want(x, h)
    exp = w[0] if w.shape[0] == 1 else w
    if tuple(got.shape) != exp.shape:
        return ctx.fail(f"{what}: shape {tuple(got.shape)}, expected {exp.shape}")
    if got.dtype != dtype:
        return ctx.fail(f"{what}: dtype {got.dtype}")
    scale = max(floor * 1e-3, np.linalg.norm(x) * np.linalg.norm(h))
    err = np.max(np.abs(got.double().numpy() - exp))
    if not err <= (1e-12 if dtype == torch.float64 else 2e-5) * scale:
        return ctx.fail(f"{what}: differs from the direct sum by {err:.3g}")
    ctx.note((what.split("|")[0], exp.shape, np.round(exp, 6).tobytes()))


def _len(case, ctx):
    n = case["n"]
    for l in range(1, case["top"] + 1):
        for dt in (torch.float64, torch.float32):
            x, h = _rand(2, n, seed=n), _rand(2, 3, l, seed=l + 50)
            a, b = x.clone().to(dt), h.clone().to(dt)
            judge(ctx, convolve_rir(a, b), x.numpy(), h.numpy(), f"2 sources {n}x{l}", dt)
            ctx.check(torch.equal(a, x.to(dt)) and torch.equal(b, h.to(dt)), f"inputs modified at {n}x{l}")
            judge(ctx, fft_convolve(a[0], b[0, 0]), x.numpy()[:1], h.numpy()[:1, :1], f"fft {n}x{l}", dt)
            judge(ctx, convolve_rir(a[0], b[0, 0]), x.numpy()[:1], h.numpy()[:1, :1], f"1d {n}x{l}", dt)
            ctx.count(3)


def _delta(case, ctx):
    n = case["n"]
    for l in range(1, 10):
        for i, j in itertools.product(range(n), range(l)):
            for s, m in itertools.product(range(2), range(2)):
                x = torch.zeros(2, n, dtype=torch.float64)
                h = torch.zeros(2, 2, l, dtype=torch.float64)
                x[s, i] = 1.5
                h[s, m, j] = -2.0
                judge(ctx, convolve_rir(x, h), x.numpy(), h.numpy(), f"delta {n},{l},{i},{j},{s},{m}")
                ctx.count()


def _vals(case, ctx):
    """No value of a sample or a tap is special: zeros, weak and equal ones, and everything scaled down or up."""
    for x, h in convvals.static_pairs(case["part"], 16, case["deep"]):
        for g in (1.0, 1e-12, 1e9):
            a = x * g
            judge(ctx, convolve_rir(a, h), a.numpy(), h.numpy(), f"values {x.tolist()} {h.tolist()} x{g}", floor=1e-30)
        if x.shape[0] == 1:
            judge(ctx, fft_convolve(x[0], h[0, 0]), x.numpy(), h.numpy(), f"fft values {x.tolist()} {h.tolist()}", floor=1e-30)
        ctx.count(4)


def _shape(case, ctx):
    n, l = case["n"], case["l"]
    for xs, hs in itertools.product([(n,), (1, n), (2, n), (3, n)], [(l,), (1, l), (2, l), (1, 1, l), (1, 3, l), (2, 1, l), (2, 2, l), (3, 1, l), (3, 3, l)]):
        x, h = _rand(*xs, seed=3), _rand(*hs, seed=9)
        h3 = h.view(*((1,) * (3 - h.ndim)), *hs) if h.ndim != 2 else h.view(1, *hs)
        x2 = x.view(1, -1) if x.ndim == 1 else x
        ok = x2.shape[0] in (1, h3.shape[0])
        for form in ("plain", "strided", "f32", "mixed", "mixed2"):
            a, b, dt = x, h, torch.float64
            if form == "strided":
                a = torch.stack([x, x], -1)[..., 0]
                b = torch.stack([h, h], -1)[..., 1]
            elif form == "f32":
                a, b, dt = x.float(), h.float(), torch.float32
            elif form == "mixed":
                a, b, dt = x.float(), h, torch.float32
            elif form == "mixed2":
                a, b = x, h.float()
            exc_box = []
            exc = raises(lambda: exc_box.append(convolve_rir(a, b)), ValueError)
            ctx.count()
            if not ctx.check((exc is None) == ok, f"signal {xs} responses {hs}: {'refused' if exc else 'accepted'} ({form})"):
                continue
            if ok:
                judge(ctx, exc_box[0], x2.numpy(), h3.numpy() if form != "mixed2" else h3.float().double().numpy(), f"{xs} * {hs} {form}",
                      dt) if form != "mixed2" else _loose(ctx, exc_box[0], x2, h3, f"{xs} * {hs} mixed")
    for xs, hs in (((1, 2, n), (l,)), ((2, 2, n), (2, 2, l)), ((n,), (1, 1, 1, l)), ((2, n), (2, 2, 2, l))):
        ctx.check(raises(lambda: convolve_rir(_rand(*xs), _rand(*hs)), ValueError), f"signal {xs} responses {hs} accepted")
        ctx.note((xs, hs))
    for xs, hs in (((1, n), (l,)), ((n,), (1, l)), ((2, n), (2, l))):
        ctx.check(raises(lambda: fft_convolve(_rand(*xs), _rand(*hs)), ValueError), f"fft_convolve accepted {xs}, {hs}")
    ctx.check(raises(lambda: convolve_rir(torch.tensor(1.0), _rand(l)), ValueError), "0-D signal accepted")
    ctx.check(raises(lambda: convolve_rir(_rand(n), torch.tensor(1.0)), ValueError), "0-D response accepted")


def _loose(ctx, got, x2, h3, what):
    w = want(x2.numpy(), h3.numpy())
    exp = w[0] if w.shape[0] == 1 else w
    ok = tuple(got.shape) == exp.shape and got.dtype == torch.float64 and np.max(np.abs(got.numpy() - exp)) <= 1e-4 * (1 + np.abs(exp).max())
    ctx.check(ok, f"{what}: mixed dtypes give shape {tuple(got.shape)} {got.dtype} or a wrong sum")


def _huge(case, ctx):
    """Long signals and long responses, in which a tap sits at each end and a few in between: shifted and added."""
    n = case["n"]
    for l, swap, (ns, nm), dt in itertools.product((1, 2, 1000, 4097), (False, True), ((1, 1), (2, 3)), (torch.float64, torch.float32)):
        if ns * nm > 1 and n > 2**18 + 1 and dt == torch.float32:
            continue
        x = _rand(ns, n, seed=n).to(dt)
        pos = sorted({0, l // 3, l // 2, max(0, l - 2), l - 1})
        taps = (_rand(ns, nm, len(pos), seed=l) + 2.0).to(dt)
        h = torch.zeros(ns, nm, l, dtype=dt)
        h[:, :, pos] = taps
        exp = np.zeros((nm, n + l - 1))
        for s, m, (k, p) in itertools.product(range(ns), range(nm), enumerate(pos)):
            exp[m, p : p + n] += float(taps[s, m, k]) * x[s].double().numpy()
        what = f"{n} samples, {l} taps, {ns}x{nm} {dt}{' exchanged' if swap else ''}"
        tol = (2e-14 if dt == torch.float64 else 1e-5) * float(taps.abs().sum()) * np.sqrt(n)
        if swap:
            if ns * nm > 1:
                continue
            got = fft_convolve(h[0, 0], x[0])[None]
        else:
            got = convolve_rir(x, h)
            got = got[None] if nm == 1 else got
        ctx.count()
        ok = tuple(got.shape) == exp.shape and got.dtype == dt
        err = float(np.max(np.abs(got.double().numpy() - exp))) if ok else np.inf
        ctx.check(ok and err <= tol, f"{what}: shape {tuple(got.shape)} {got.dtype}, differs from the direct sum by {err:.3g}")
        ctx.note((what, float(np.abs(exp).sum())))


def _counts(case, ctx):
    """Dozens of sources and microphones."""
    ns, nm = case["ns"], case["nm"]
    for n, l, mono, dt in itertools.product((5, 40), (1, 7), (False, True), (torch.float64, torch.float32)):
        x, h = _rand(1 if mono else ns, n, seed=ns + n), _rand(ns, nm, l, seed=nm + l)
        got = convolve_rir(x.to(dt) if not mono else x[0].to(dt), h.to(dt))
        xs = x.numpy().repeat(ns, 0) if mono else x.numpy()
        exp = np.zeros((nm, n + l - 1))
        for k in range(l):
            exp[:, k : k + n] += np.einsum("sn,sm->mn", xs, h[:, :, k].numpy())
        exp = exp[0] if nm == 1 else exp
        ctx.count()
        ok = tuple(got.shape) == exp.shape and got.dtype == dt and np.max(np.abs(got.double().numpy() - exp)) <= (1e-12 if dt == torch.float64 else 2e-5) * np.linalg.norm(xs) * np.linalg.norm(h.numpy())
        ctx.check(ok, f"{case}: {n} samples, {l} taps, mono {mono}, {dt}: differs from the direct sum")
        ctx.note((ns, nm, n, l, mono, float(np.abs(exp).sum())))


def _big(case, ctx):
    """Lengths around larger powers of two; compared with numpy's direct convolution."""
    for n, l in itertools.product((127, 128, 129, 255, 256, 257, 1023, 1025), (1, 2, 127, 128, 129, 513)):
        x, h = _rand(2, n, seed=n), _rand(2, 2, l, seed=l)
        got = convolve_rir(x, h).numpy()
        exp = np.array([sum(np.convolve(x[s].numpy(), h[s, m].numpy()) for s in range(2)) for m in range(2)])
        ctx.check(got.shape == exp.shape and np.max(np.abs(got - exp)) < 1e-9 * n, f"{n}x{l} differs")
        ctx.count()
        ctx.note((n, l, float(np.abs(exp).sum())))
