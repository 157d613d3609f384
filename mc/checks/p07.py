"""P07: the high-pass is the configured zero-phase filter of each response alone."""

import itertools
import sys

import numpy as np
import scipy.signal as ss
import torch

from mc.core import raises
from mc.simlib import *  # noqa: F403
from mc.simlib import DT, MIC_F, SIZES, SRC_F, points, tens

from torchrir import DynamicScene, StaticScene
from torchrir.sim import ISMSimulator

ID = "P07"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of filter settings, rates, lengths, dtypes and batch shapes on the real code against a per-response scipy reference"
NOTE = (
    "Every combination is executed; the reference designs the filter with the family-specific scipy designer and runs "
    "it forward and backward on each single response in float64."
)
RULE = (
    "all of: 5 filter families x orders 1..4 (thorough 1..8) x 6 cutoffs (whole and fractional) x 4 sample rates x lengths {just above the edge "
    "padding, 61, 200} x 2 dtypes x batch shapes, static and dynamic; orders 1..12 on responses of up to 200001 samples; all cutoffs at and around 0 and fs/2; batches of up to 1025 responses; every entry point with scipy missing. "
    "Non-trivial: filtered response differs from the unfiltered one; distinct by settings and rounded energy."
)
ASSUMPTIONS = [
    "responses longer than the filter's edge padding (shorter ones are refused by scipy itself)",
    "numerically stable designs: pole radius of the designed sections below 1",
]

FAM = {"butter": {}, "cheby1": {"rp": 1.5}, "cheby2": {"rs": 40.0}, "ellip": {"rp": 2.0, "rs": 50.0}, "bessel": {}}


def CUTS(fs):
    """Whole and fractional cutoffs, from low to just below the limit."""
    return (10.0, 0.021234 * fs + 0.37, 0.1 * fs, 0.3 * fs + 0.61, 0.49 * fs, 13.9)


def design(fam, n, fc, fs, kw):
    if fam == "butter":
        return ss.butter(n, fc, "highpass", output="sos", fs=fs)
    if fam == "cheby1":
        return ss.cheby1(n, kw["rp"], fc, "highpass", output="sos", fs=fs)
    if fam == "cheby2":
        return ss.cheby2(n, kw["rs"], fc, "highpass", output="sos", fs=fs)
    if fam == "ellip":
        return ss.ellip(n, kw["rp"], kw["rs"], fc, "highpass", output="sos", fs=fs)
    return ss.bessel(n, fc, "highpass", output="sos", fs=fs)


def cases(tier):
    orders = range(1, 5) if tier == "quick" else range(1, 9)
    for fam, n, fs, dim in itertools.product(FAM, orders, (1000, 8000, 16000.0, 44100), (2, 3)):
        yield dict(k="fam", fam=fam, n=n, fs=fs, dim=dim)
    for fs in (1000, 8000, 16000.0, 44100):
        yield dict(k="cut", fs=fs)
    for dim in (2, 3):
        yield dict(k="default", dim=dim)
    for dim in (2, 3):
        yield dict(k="noscipy", dim=dim)
    for dim, (ns, nm, T) in itertools.product((2, 3), ((1, 130, 1), (130, 1, 1), (17, 33, 1), (1, 1, 300), (3, 5, 40), (2, 2, 129), (1, 1025, 1))):
        yield dict(k="batch", dim=dim, ns=ns, nm=nm, T=T)
    for fam, n in itertools.product(FAM, range(1, 13)):
        yield dict(k="long", fam=fam, n=n)


def _setup(dim, fs, dt, ns=2, nm=3):
    size = SIZES[dim][0]
    room = Room.shoebox(size=list(size), fs=fs, beta=[0.9, 0.8, 0.7, 0.6, 0.85, 0.65][: 2 * dim], dtype=dt)
    return room, tens(points(SRC_F, size, ns), dt), tens(points(MIC_F, size, nm), dt)


def _filt(sos, x):
    return ss.sosfiltfilt(sos, np.asarray(x, np.float64))


def _cmp(ctx, got, raw, sos, what):
    if got.shape != raw.shape or got.dtype != raw.dtype or got.device != raw.device:
        ctx.fail(f"{what}: shape/dtype/device {tuple(got.shape)} {got.dtype} {got.device} from {tuple(raw.shape)} {raw.dtype}")
        return
    r = raw.double().reshape(-1, raw.shape[-1]).numpy()
    g = got.double().reshape(-1, raw.shape[-1]).numpy()
    for k in range(r.shape[0]):
        want = _filt(sos, r[k])
        scale = max(np.max(np.abs(want)), np.max(np.abs(r[k])), 1e-12)
        tol = (1e-8 if raw.dtype == torch.float64 else 2e-6) * scale
        if not np.all(np.abs(g[k] - want) <= tol):
            ctx.fail(f"{what}: response {k} differs from its own filtering by {np.max(np.abs(g[k] - want)):.3g} (scale {scale:.3g})")
            return
        if np.max(np.abs(want - r[k])) > 1e-9:
            ctx.note((what, k, round(float(np.sum(want**2)), 6)))


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


def _fam(case, ctx):
    fam, n, fs, dim = case["fam"], case["n"], case["fs"], case["dim"]
    for fi, (fc, dtn, alias) in enumerate(itertools.product(
        CUTS(fs), ("f32", "f64"), ("type", "ftype"))):
        dt = DT[dtn]
        sos = design(fam, n, fc, fs, FAM[fam])
        if not np.all(np.isfinite(sos)) or any(np.any(np.abs(np.roots(s[3:])) >= 1) for s in sos):
            ctx.bump("unstable_design_skipped")
            continue
        kw = {"n": n, alias: fam, **FAM[fam]}
        # give families the settings they do not use as well, as the default configuration does
        if alias == "type":
            kw.setdefault("rp", 5.0)
            kw.setdefault("rs", 60.0)
            if fam == "cheby1":
                kw["rs"] = 33.0
        pad = 3 * (2 * sos.shape[0] + 1) + 1
        room, S, M = _setup(dim, fs, dt)
        on = SimulationConfig(frac_delay_length=21, use_lut=False, rir_hpf_fc=fc, rir_hpf_kwargs=kw)
        off = SimulationConfig(frac_delay_length=21, use_lut=False, rir_hpf_fc=fc, rir_hpf_kwargs=kw, rir_hpf_enable=False)
        for ns in (pad, 61, 200) if fi < 6 else (200,):
            ns = max(ns, pad)
            args = dict(room=room, sources=S, mics=M, max_order=1, nsample=ns)
            _cmp(ctx, simulate_rir(**args, config=on), simulate_rir(**args, config=off), sos, f"static {fam} n={n} fc={fc} fs={fs} len={ns} {dtn} {dim}D")
            ctx.count()
        T = torch.stack([S, S + 0.21, S.flip(0)])
        args = dict(room=room, src_traj=T, mic_traj=M.repeat(3, 1, 1), max_order=1, nsample=150)
        _cmp(ctx, simulate_dynamic_rir(**args, config=on), simulate_dynamic_rir(**args, config=off), sos, f"dynamic {fam} n={n} fc={fc} fs={fs} {dtn} {dim}D")
        ctx.count()


def _batch(case, ctx):
    """Every response of a large batch is filtered on its own."""
    dim, ns, nm, T = case["dim"], case["ns"], case["nm"], case["T"]
    size = SIZES[dim][0]
    room = Room.shoebox(size=list(size), fs=8000, beta=[0.9, 0.8, 0.7, 0.6, 0.85, 0.65][: 2 * dim], dtype=torch.float64)

    def spread(n, a):
        return torch.tensor([[(0.1 + 0.8 * ((a * (i + 1) * (j + 2)) % 1.0)) * size[j] for j in range(dim)] for i in range(n)], dtype=torch.float64)

    on, off = SimulationConfig(frac_delay_length=21, rir_hpf_fc=200.0), SimulationConfig(frac_delay_length=21, rir_hpf_enable=False)
    sos = design("butter", 2, 200.0, 8000, {})
    args = dict(room=room, max_order=1, nsample=120)
    S, M = spread(ns, 0.381966), spread(nm, 0.618034)
    if T == 1:
        for dt in (torch.float64, torch.float32):
            a = dict(args, sources=S.to(dt), mics=M.to(dt))
            _cmp(ctx, simulate_rir(**a, config=on), simulate_rir(**a, config=off), sos, f"{case} {dt}")
            ctx.count()
    st, mt = spread(ns * T, 0.381966).view(T, ns, dim), spread(nm, 0.618034).expand(T, nm, dim)
    a = dict(args, src_traj=st, mic_traj=mt)
    _cmp(ctx, simulate_dynamic_rir(**a, config=on), simulate_dynamic_rir(**a, config=off), sos, f"dynamic {case}")
    ctx.count()


class _Blocked:
    """scipy.signal cannot be imported while this is open."""

    def __enter__(self):
        self.had = sys.modules.get("scipy.signal")
        sys.modules["scipy.signal"] = None

    def __exit__(self, *a):
        sys.modules["scipy.signal"] = self.had


def _noscipy(case, ctx):
    """Without scipy an enabled filter is refused on every entry point, never silently skipped; disabled, nothing changes."""
    dim = case["dim"]
    for dtn, fs in itertools.product(("f32", "f64"), (8000, 16000)):
        dt = DT[dtn]
        room, S, M = _setup(dim, fs, dt)
        st, mt = S[None].repeat(2, 1, 1), M[None].repeat(2, 1, 1)
        scenes = {"static": StaticScene(room, Source(S), MicrophoneArray(M)),
                  "dynamic": DynamicScene(room=room, sources=Source(S), mics=MicrophoneArray(M), src_traj=st, mic_traj=mt)}
        off, on = SimulationConfig(rir_hpf_enable=False), SimulationConfig(rir_hpf_enable=True)
        size = dict(max_order=1, nsample=200)
        calls = {
            "simulate_rir": lambda c: simulate_rir(room=room, sources=S, mics=M, config=c, **size),
            "simulate_dynamic_rir": lambda c: simulate_dynamic_rir(room=room, src_traj=st, mic_traj=mt, config=c, **size),
            "static scene": lambda c: ISMSimulator(**size).simulate(scenes["static"], c).rirs,
            "dynamic scene": lambda c: ISMSimulator(**size).simulate(scenes["dynamic"], c).rirs,
        }
        for name, call in calls.items():
            what = f"{name} {dim}D {dtn} fs={fs}"
            want, filtered = call(off), call(on)
            with _Blocked():
                got = call(off)
                for label, c in (("enabled", on), ("default", None)):
                    ctx.check(raises(lambda: call(c), ImportError), f"{what}: high-pass {label} without scipy answered instead of being refused")
            ctx.check(torch.equal(got, want), f"{what}: switched-off filter changes its answer when scipy is missing")
            ctx.check(torch.equal(call(on), filtered), f"{what}: filter does not come back with scipy")
            ctx.note((name, dim, dtn, fs))
            ctx.count()


def _long(case, ctx):
    """High orders and long responses (to the end of which the sound still travels)."""
    fam, n = case["fam"], case["n"]
    fs = 8000
    for fc, dtn in itertools.product((400.0, 1500.0), ("f64", "f32")):
        sos = design(fam, n, fc, fs, FAM[fam])
        if any(np.any(np.abs(np.roots(s[3:])) >= 1) for s in sos):
            continue
        kw = {"n": n, "type": fam, **FAM[fam]}
        on = SimulationConfig(frac_delay_length=21, rir_hpf_fc=fc, rir_hpf_kwargs=kw)
        off = SimulationConfig(frac_delay_length=21, rir_hpf_enable=False)
        for ns in (200, 1023, 1025, 2049, 4095, 4097, 5000, 16385) + ((65537, 200001) if n == 2 else ()):
            # sound at the very start and the very end of the response
            size = (ns / fs * 343.0 * 1.3, 3.0)
            room = Room.shoebox(size=list(size), fs=fs, beta=[0.9, 0.8, 0.7, 0.6], dtype=DT[dtn])
            S, M = tens([(1.0, 1.5)], DT[dtn]), tens([(1.31, 1.7), (1.0 + (ns - 3.4) / fs * 343.0, 1.5)], DT[dtn])
            args = dict(room=room, sources=S, mics=M, max_order=1, nsample=ns)
            _cmp(ctx, simulate_rir(**args, config=on), simulate_rir(**args, config=off), sos, f"{fam} n={n} fc={fc} len={ns} {dtn}")
            ctx.count()


def _cut(case, ctx):
    fs = case["fs"]
    room, S, M = _setup(2, fs, torch.float64)
    for fc, ok in ((-1.0, False), (0.0, False), (1e-3 * fs, True), (0.499 * fs, True), (0.5 * fs, False), (0.5 * fs + 1, False), (float(fs), False), (3.0 * fs, False)):
        def stat():
            return simulate_rir(room=room, sources=S, mics=M, max_order=0, nsample=80, config=SimulationConfig(rir_hpf_fc=fc))

        def dyn():
            return simulate_dynamic_rir(room=room, src_traj=S[None], mic_traj=M[None], max_order=0, nsample=80, config=SimulationConfig(rir_hpf_fc=fc))

        def scene():
            return ISMSimulator(max_order=0, nsample=80).simulate(StaticScene(room, Source(S), MicrophoneArray(M)), SimulationConfig(rir_hpf_fc=fc))

        for w, f in dict(static=stat, dynamic=dyn, scene=scene).items():
            exc = raises(f, ValueError)
            ctx.check((exc is None) == ok, f"{w} cutoff {fc} at fs {fs}: {'accepted' if exc is None else 'refused'}")
            ctx.count()
            ctx.note((w, fc, fs, ok))
        if fc > 0:
            # disabled: any cutoff is irrelevant and the result is the unfiltered one
            a = simulate_rir(room=room, sources=S, mics=M, max_order=1, nsample=80, config=SimulationConfig(rir_hpf_fc=fc, rir_hpf_enable=False))
            b = simulate_rir(room=room, sources=S, mics=M, max_order=1, nsample=80, config=SimulationConfig(rir_hpf_enable=False))
            ctx.check(torch.equal(a, b), f"disabled filter with cutoff {fc} changes the result")


def _default(case, ctx):
    dim = case["dim"]
    for dtn, fs in itertools.product(("f32", "f64"), (1000, 8000, 16000, 44100)):
        dt = DT[dtn]
        room, S, M = _setup(dim, fs, dt)
        sos = design("butter", 2, 10.0, fs, {})
        off = SimulationConfig(rir_hpf_enable=False)
        args = dict(room=room, sources=S, mics=M, max_order=1, nsample=300)
        raw = simulate_rir(**args, config=off)
        _cmp(ctx, simulate_rir(**args), raw, sos, f"default static fs={fs} {dtn} {dim}D")
        _cmp(ctx, simulate_rir(**args, config=SimulationConfig()), raw, sos, f"default config static fs={fs} {dtn} {dim}D")
        dargs = dict(room=room, src_traj=S[None], mic_traj=M[None], max_order=1, nsample=300)
        _cmp(ctx, simulate_dynamic_rir(**dargs), simulate_dynamic_rir(**dargs, config=off), sos, f"default dynamic fs={fs} {dtn} {dim}D")
        sim = ISMSimulator(max_order=1, nsample=300).simulate(StaticScene(room, Source(S), MicrophoneArray(M)))
        _cmp(ctx, sim.rirs, raw, sos, f"default scene fs={fs} {dtn} {dim}D")
        # the diffuse tail is filtered too: filtering happens on the finished response
        t = dict(args, tmax=300 / fs, tdiff=100.5 / fs)
        _cmp(ctx, simulate_rir(**t), simulate_rir(**t, config=off), sos, f"default static with tail fs={fs} {dtn} {dim}D")
        for n in (1, 2, 3, 5):  # kwargs without a family: Butterworth
            c = SimulationConfig(rir_hpf_fc=60.0, rir_hpf_kwargs={"n": n})
            _cmp(ctx, simulate_rir(**args, config=c), raw, design("butter", n, 60.0, fs, {}), f"kwargs n={n} only, fs={fs} {dtn} {dim}D")
        c = SimulationConfig(rir_hpf_fc=60.0, rir_hpf_kwargs={})
        _cmp(ctx, simulate_rir(**args, config=c), raw, design("butter", 2, 60.0, fs, {}), f"empty kwargs, fs={fs} {dtn} {dim}D")
        ctx.count(9)
        # one source, one mic, one step: no axis may be dropped
        one = simulate_dynamic_rir(room=room, src_traj=S[None, :1], mic_traj=M[None, :1], max_order=0, nsample=120)
        ctx.check(tuple(one.shape) == (1, 1, 1, 120), f"shape {tuple(one.shape)}")
