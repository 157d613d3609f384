"""P06: directional gains per image path, over all pattern pairs and orientation forms."""

import itertools
import math

import torch

from mc import ref
from mc.core import raises
from mc.simlib import *  # noqa: F403
from mc.simlib import DT, MIC_F, SIZES, SRC_F, all_paths, cfg, compare, points, tens

from torchrir import DynamicScene, StaticScene
from torchrir.sim import ISMSimulator

ID = "P06"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of pattern pairs, aliases and orientation forms on the real code against an independent image-source reference"
NOTE = (
    "Every ordered pair of pattern names and aliases and every accepted orientation form is executed, statically and "
    "dynamically, and compared sample by sample with mc/ref.py, which rotates and weights each image path itself."
)
RULE = (
    "all ordered pairs of the 15 accepted names (case varied) x 2D/3D x static/dynamic; all pairs of orientation forms x "
    "entity-held / explicit pair / explicit shared; all pattern pairs x facing vectors scaled by 1e-6..1e6 and source-mic distances 1..1e-4; every pattern with a missing orientation; unknown names; coincident "
    "positions for every pattern pair. Non-trivial: distinct rounded reference responses."
)
ASSUMPTIONS = [
    "a 1-D 2D orientation with exactly two numbers is a vector, not two angles (documented by the code's own rule)",
    "half-omni gains are not judged for paths within 1e-6 of the exact side direction",
    "CPU only",
]

NAMES = {
    "omni": "omni", "omnidirectional": "omni", "homni": "homni", "halfomni": "homni", "half-omni": "homni",
    "subcardioid": "subcardioid", "subcard": "subcardioid", "cardioid": "cardioid", "card": "cardioid",
    "hypercardioid": "hypercardioid", "hypcard": "hypercardioid", "bidir": "bidir", "bidirectional": "bidir",
    "figure8": "bidir", "figure-8": "bidir",
}
CANON = ["omni", "homni", "subcardioid", "cardioid", "hypercardioid", "bidir"]

# vectors of assorted lengths
VEC = {2: [(1.0, 2.0), (-0.02, 0.013), (30.0, -7.0)], 3: [(1.0, 2.0, -0.5), (-0.02, 0.013, 0.008), (3.0, -70.0, 11.0)]}
ANG = [0.4, -2.2, 3.9]
AZEL = [(0.4, 0.3), (-2.2, -0.9), (2.9, 1.2)]
FORMS = {
    2: ["vec", "vecs", "scalar", "angle1", "angles", "angcol", "ivec"],
    3: ["vec", "vecs", "azel", "azels", "ivec"],
}


def make_ori(dim, form, n, dtype):
    """(tensor handed to the library, list of unit directions the reference uses) or None if not defined for n."""
    u2 = lambda a: (math.cos(a), math.sin(a))
    u3 = lambda p: (math.cos(p[1]) * math.cos(p[0]), math.cos(p[1]) * math.sin(p[0]), math.sin(p[1]))
    T = lambda x: torch.tensor(x, dtype=dtype)
    if form == "vec":
        return T(VEC[dim][0]), [VEC[dim][0]] * n
    if form == "ivec":
        v = (2, -3, 1)[:dim]
        return torch.tensor(v), [v] * n
    if form == "vecs":
        return T(VEC[dim][:n]), VEC[dim][:n]
    if form == "scalar":
        return T(ANG[0]), [u2(ANG[0])] * n
    if form == "angle1":
        return T([ANG[1]]), [u2(ANG[1])] * n
    if form == "angles":
        return None if n == 2 else (T(ANG[:n]), [u2(a) for a in ANG[:n]])
    if form == "angcol":
        return T([[a] for a in ANG[:n]]), [u2(a) for a in ANG[:n]]
    if form == "azel":
        return T(AZEL[0]), [u3(AZEL[0])] * n
    if form == "azels":
        return T(AZEL[:n]), [u3(p) for p in AZEL[:n]]
    raise KeyError(form)


def cases(tier):
    deep = tier != "quick"
    for dim in (2, 3):
        for s, m in itertools.product(NAMES, NAMES):
            yield dict(k="pair", dim=dim, s=s, m=m)
        for s in NAMES:
            yield dict(k="single", dim=dim, s=s)
        ns_nm = [(1, 1), (2, 3), (3, 2), (3, 3), (2, 2)] if deep else [(1, 3), (3, 1), (3, 3), (2, 2)]
        for fs_, fm, (ns, nm) in itertools.product(FORMS[dim], FORMS[dim], ns_nm):
            yield dict(k="form", dim=dim, fs=fs_, fm=fm, ns=ns, nm=nm)
        for dt, (s, m) in itertools.product(("f32", "f64"), itertools.product(CANON, CANON)):
            yield dict(k="coin", dim=dim, s=s, m=m, dt=dt)
        for s, m in itertools.product(CANON, CANON):
            yield dict(k="scale", dim=dim, s=s, m=m)
    for dim, s, m in itertools.product((2, 3), CANON, CANON):
        yield dict(k="missing", dim=dim, s=s, m=m)
    for dim, bad in itertools.product((2, 3), ("", "cardoid", "omni ", "card-ioid", "figure_8", "super", "half omni", "none")):
        yield dict(k="unknown", dim=dim, bad=bad)
    for dim in (2, 3):
        yield dict(k="badori", dim=dim)
        yield dict(k="cfg", dim=dim)
    for dim, order in [(2, o) for o in (8, 15, 34)] + [(3, o) for o in (6, 9, 12)]:
        for s, m in (("cardioid", "bidir"), ("bidir", "omni"), ("omni", "subcardioid"), ("homni", "hypercardioid")):
            yield dict(k="high", dim=dim, order=order, s=s, m=m)
    for dim, (ns, nm) in itertools.product((2, 3), ((4, 4), (5, 1), (1, 5), (9, 8), (17, 3), (3, 33), (40, 1), (1, 129), (12, 12))):
        yield dict(k="many", dim=dim, ns=ns, nm=nm)


def _room(dim, dt, g=0):
    size = SIZES[dim][g]
    beta = [0.93, 0.81, 0.74, 0.66, 0.88, 0.59][: 2 * dim]
    return size, beta, Room.shoebox(size=list(size), fs=8000, beta=beta, dtype=dt)


def _case_name(n, k):
    return [n, n.upper(), n.title()][k % 3]


def run(case, ctx):
    globals()["_" + case["k"]](case, ctx)


def _judge(ctx, got, size, beta, srcs, mics, ps, pm, sd, md, dt, what, order=2, ns=220):
    paths = all_paths(size, beta, srcs, mics, c=343.0, fs=8000, fdl=21, max_order=order,
                      src_pat=ps, mic_pat=pm, src_dirs=sd, mic_dirs=md)
    if "homni" in (ps, pm) and dt != torch.float64:
        return
    compare(ctx, got, paths, ns, 21, dt, 0, what)
    ctx.count()
    ctx.note((what.split(":")[0], [round(a, 7) for p in paths.values() for _, a in p][:40]))


def _pair(case, ctx, single=False):
    dim, dt = case["dim"], torch.float64
    size, beta, room = _room(dim, dt)
    srcs, mics = points(SRC_F, size, 2), points(MIC_F, size, 3)
    sd, md = VEC[dim][:2], VEC[dim][::-1]
    so, mo = tens(sd, dt), tens(md, dt)
    k = sum(map(ord, case["s"] + case.get("m", "")))
    d = _case_name(case["s"], k) if single else (_case_name(case["s"], k), _case_name(case["m"], k // 3))
    ps, pm = NAMES[case["s"]], NAMES[case.get("m", case["s"])]
    c = cfg(frac_delay_length=21)
    kw = dict(room=room, max_order=2, nsample=220, directivity=d, config=c)
    got = simulate_rir(sources=Source(tens(srcs, dt), so), mics=MicrophoneArray(tens(mics, dt), mo), **kw)
    _judge(ctx, got, size, beta, srcs, mics, ps, pm, sd, md, dt, f"static {d} {dim}D")
    got = simulate_rir(sources=tens(srcs, dt), mics=tens(mics, dt), orientation=(so, mo), **kw)
    _judge(ctx, got, size, beta, srcs, mics, ps, pm, sd, md, dt, f"explicit {d} {dim}D")
    srcs2 = points(SRC_F[1:], size, 2)
    mics2 = points(MIC_F[::-1], size, 3)
    st, mt = tens([srcs, srcs2, srcs], dt), tens([mics, mics2, mics2], dt)
    got = simulate_dynamic_rir(src_traj=st, mic_traj=mt, orientation=(so, mo), **kw)
    scene = DynamicScene(room=room, sources=Source(st[0], so), mics=MicrophoneArray(mt[0], mo), src_traj=st, mic_traj=mt)
    got2 = ISMSimulator(max_order=2, nsample=220, directivity=d).simulate(scene, c).rirs
    for g, w in ((got, "dynamic"), (got2, "dynamic scene")):
        for t, (a, b) in enumerate(((srcs, mics), (srcs2, mics2), (srcs, mics2))):
            _judge(ctx, g[t], size, beta, a, b, ps, pm, sd, md, dt, f"{w} step {t} {d} {dim}D")


def _single(case, ctx):
    _pair(case, ctx, single=True)


def _form(case, ctx):
    dim, ns, nm = case["dim"], case["ns"], case["nm"]
    for dt in (torch.float64, torch.float32):
        size, beta, room = _room(dim, dt, 1)
        srcs, mics = points(SRC_F, size, ns), points(MIC_F, size, nm)
        a, b = make_ori(dim, case["fs"], ns, dt), make_ori(dim, case["fm"], nm, dt)
        if a is None or b is None:
            continue
        (so, sd), (mo, md) = a, b
        S, M = tens(srcs, dt), tens(mics, dt)
        kw = dict(room=room, max_order=1, nsample=220, directivity=("hypercardioid", "cardioid"), config=cfg(frac_delay_length=21))
        other_s, other_m = tens([VEC[dim][2]] * ns, dt), tens([VEC[dim][1]] * nm, dt)
        runs = {
            "held": simulate_rir(sources=Source(S, so), mics=MicrophoneArray(M, mo), **kw),
            "pair": simulate_rir(sources=S, mics=M, orientation=(so, mo), **kw),
            "pair over held": simulate_rir(sources=Source(S, other_s), mics=MicrophoneArray(M, other_m), orientation=(so, mo), **kw),
            "dyn": simulate_dynamic_rir(src_traj=S[None], mic_traj=M[None], orientation=(so, mo), **kw)[0],
            "static scene": ISMSimulator(max_order=1, nsample=220, directivity=("hypercardioid", "cardioid")).simulate(
                StaticScene(room=room, sources=Source(S, so), mics=MicrophoneArray(M, mo)), cfg(frac_delay_length=21)).rirs,
            "dynamic scene": ISMSimulator(max_order=1, nsample=220, directivity=("hypercardioid", "cardioid")).simulate(
                DynamicScene(room=room, sources=Source(S, so), mics=MicrophoneArray(M, mo), src_traj=S[None], mic_traj=M[None]),
                cfg(frac_delay_length=21)).rirs[0],
        }
        if case["fs"] == case["fm"] and (ns == nm or case["fs"] in ("vec", "scalar", "angle1", "azel", "ivec")):
            runs["one for both"] = simulate_rir(sources=S, mics=M, orientation=so, **kw)
            runs["one for both over held"] = simulate_rir(sources=Source(S, other_s), mics=MicrophoneArray(M, other_m), orientation=so, **kw)
            runs["one for both dyn"] = simulate_dynamic_rir(src_traj=S[None], mic_traj=M[None], orientation=so, **kw)[0]
        for w, got in runs.items():
            _judge(ctx, got, size, beta, srcs, mics, "hypercardioid", "cardioid", sd, md, dt,
                   f"{w} {case['fs']}/{case['fm']} {ns}x{nm} {dim}D: ", order=1)


def _scale(case, ctx):
    """Facing vectors of any length, and sources at any distance from a microphone."""
    dim, dt, ps, pm = case["dim"], torch.float64, case["s"], case["m"]
    size, beta, room = _room(dim, dt)
    srcs, mics = points(SRC_F, size, 2), points(MIC_F, size, 2)
    kw = dict(room=room, max_order=1, nsample=220, directivity=(ps, pm), config=cfg(frac_delay_length=21))
    base_s, base_m = VEC[dim][0], VEC[dim][2]
    for k in range(-6, 7):
        sd = [tuple(x * 10.0**k for x in base_s), base_s]
        md = [base_m, tuple(x * 10.0**-k for x in base_m)]
        so, mo = tens(sd, dt), tens(md, dt)
        got = simulate_rir(sources=tens(srcs, dt), mics=tens(mics, dt), orientation=(so, mo), **kw)
        _judge(ctx, got, size, beta, srcs, mics, ps, pm, sd, md, dt, f"facing vectors scaled 1e{k} {ps}/{pm} {dim}D", order=1)
        got = simulate_dynamic_rir(src_traj=tens([srcs], dt), mic_traj=tens([mics], dt), orientation=(so, mo), **kw)
        _judge(ctx, got[0], size, beta, srcs, mics, ps, pm, sd, md, dt, f"dynamic, facing vectors scaled 1e{k} {ps}/{pm} {dim}D", order=1)
    sd, md = [base_s, base_s], [base_m, base_m]
    so, mo = tens(sd, dt), tens(md, dt)
    for k in range(0, 5):
        near = [tuple(x + d * 10.0**-k for x, d in zip(srcs[0], (0.31, -0.47, 0.22))), mics[1]]
        got = simulate_rir(sources=tens(srcs, dt), mics=tens(near, dt), orientation=(so, mo), **kw)
        _judge(ctx, got, size, beta, srcs, near, ps, pm, sd, md, dt, f"a microphone 1e{-k} from a source {ps}/{pm} {dim}D", order=1)
        got = simulate_dynamic_rir(src_traj=tens([srcs, srcs], dt), mic_traj=tens([mics, near], dt), orientation=(so, mo), **kw)
        _judge(ctx, got[1], size, beta, srcs, near, ps, pm, sd, md, dt, f"dynamic, a microphone 1e{-k} from a source {ps}/{pm} {dim}D", order=1)


def _high(case, ctx):
    """Thousands of images, each with its own weight."""
    dim, dt, ps, pm = case["dim"], torch.float64, case["s"], case["m"]
    size = SIZES[dim][0]
    beta = [0.99, 0.97, 0.98, 0.96, 0.995, 0.985][: 2 * dim]
    room = Room.shoebox(size=list(size), fs=4000, beta=beta, dtype=dt)
    srcs, mics = points(SRC_F, size, 1), points(MIC_F, size, 1)
    sd, md = VEC[dim][:1], VEC[dim][2:3]
    so, mo = tens(sd, dt), tens(md, dt)
    paths = all_paths(size, beta, srcs, mics, c=343.0, fs=4000, fdl=21, max_order=case["order"], src_pat=ps, mic_pat=pm, src_dirs=sd, mic_dirs=md)
    for n, kw in ((3000, {}), (500, {}), (1500, dict(image_chunk_size=100)), (1500, dict(image_chunk_size=7, accumulate_chunk_size=13))):
        c = cfg(frac_delay_length=21, **kw)
        args = dict(room=room, max_order=case["order"], nsample=n, directivity=(ps, pm), orientation=(so, mo), config=c)
        compare(ctx, simulate_rir(sources=tens(srcs, dt), mics=tens(mics, dt), **args), paths, n, 21, dt, 0, f"{case} n {n} {kw}")
        compare(ctx, simulate_dynamic_rir(src_traj=tens([srcs], dt), mic_traj=tens([mics], dt), **args)[0], paths, n, 21, dt, 0, f"dynamic {case} n {n} {kw}")
        ctx.count(2)
    ctx.note((dim, ps, pm, len(paths[0, 0])))


def _many(case, ctx):
    """Dozens of entities facing every way, each with its own direction."""
    dim, dt, ns, nm = case["dim"], torch.float64, case["ns"], case["nm"]
    size, beta, room = _room(dim, dt, 1)

    def spread(n, a, b):
        fr = [tuple(0.15 + 0.7 * ((a * (i + 1) * (j + 2) + b * j) % 1.0) for j in range(dim)) for i in range(n)]
        return [tuple(f * z for f, z in zip(p, size)) for p in fr]

    def facing(n, a):
        return [(math.cos(a + 1.7 * i), math.sin(a + 1.7 * i), 0.3 - 0.05 * (i % 13))[:dim] for i in range(n)]

    srcs, mics, sd, md = spread(ns, 0.381966, 0.13), spread(nm, 0.618034, 0.29), facing(ns, 0.4), facing(nm, 2.2)
    S, M, so, mo = tens(srcs, dt), tens(mics, dt), tens(sd, dt), tens(md, dt)
    kw = dict(room=room, max_order=1, nsample=220, directivity=("hypercardioid", "cardioid"), config=cfg(frac_delay_length=21))
    _judge(ctx, simulate_rir(sources=Source(S, so), mics=MicrophoneArray(M, mo), **kw), size, beta, srcs, mics, "hypercardioid", "cardioid", sd, md, dt, f"{case}", order=1)
    got = simulate_dynamic_rir(src_traj=torch.stack([S, S.flip(0)]), mic_traj=torch.stack([M, M]), orientation=(so, mo), **kw)
    _judge(ctx, got[0], size, beta, srcs, mics, "hypercardioid", "cardioid", sd, md, dt, f"dynamic {case}", order=1)
    _judge(ctx, got[1], size, beta, srcs[::-1], mics, "hypercardioid", "cardioid", sd, md, dt, f"dynamic step 1 {case}", order=1)
    one = tens(sd[:1], dt)[0]
    got = simulate_rir(sources=S, mics=M, orientation=one, **kw)
    _judge(ctx, got, size, beta, srcs, mics, "hypercardioid", "cardioid", [sd[0]] * ns, [sd[0]] * nm, dt, f"shared {case}", order=1)


def _coin(case, ctx):
    """A source at a microphone's position (and its images at others): finite, other pairs exact."""
    dim, dt = case["dim"], DT[case["dt"]]
    size, beta, room = _room(dim, dt)
    srcs, mics = points(SRC_F, size, 2), points(MIC_F, size, 2)
    mics[1] = srcs[0]
    S, M = tens(srcs, dt), tens(mics, dt)
    sd, md = VEC[dim][:2], VEC[dim][1:]
    so, mo = tens(sd, dt), tens(md, dt)
    for hpf in (False, True):
        for nsv, order in ((220, 0), (220, 2), (40, 1)):
            kw = dict(room=room, max_order=order, nsample=nsv, directivity=(case["s"], case["m"]),
                      orientation=(so, mo), config=cfg(frac_delay_length=21, rir_hpf_enable=hpf, use_lut=hpf))
            a = simulate_rir(sources=S, mics=M, **kw)
            b = simulate_dynamic_rir(src_traj=S[None], mic_traj=M[None], **kw)
            ctx.check(torch.isfinite(a).all(), f"{case}: non-finite static response for coincident positions")
            ctx.check(torch.isfinite(b).all(), f"{case}: non-finite dynamic response for coincident positions")
            ctx.count(2)
            if not hpf and nsv == 220 and dt == torch.float64:
                paths = all_paths(size, beta, srcs, mics, c=343.0, fs=8000, fdl=21, max_order=order,
                                  src_pat=case["s"], mic_pat=case["m"], src_dirs=sd, mic_dirs=md)
                paths.pop((0, 1))
                full = {k: v for k, v in paths.items()}
                full[0, 1] = [(0.5, 0.0)]
                g = a.clone()
                g[0, 1] = 0
                compare(ctx, g, full, nsv, 21, dt, 0, f"{case} beside the coincident pair")
            ctx.note((case, hpf, nsv, order, float(torch.nan_to_num(a).abs().sum())))


def _missing(case, ctx):
    dim, dt = case["dim"], torch.float64
    size, beta, room = _room(dim, dt)
    S, M = tens(points(SRC_F, size, 2), dt), tens(points(MIC_F, size, 2), dt)
    o = tens(VEC[dim][:2], dt)
    d = (case["s"], case["m"])
    c = cfg(frac_delay_length=21)
    for so, mo in itertools.product((None, o), repeat=2):
        must = (so is None and d[0] != "omni") or (mo is None and d[1] != "omni")
        calls = {
            "held": lambda: simulate_rir(room=room, sources=Source(S, so), mics=MicrophoneArray(M, mo), max_order=1, nsample=60, directivity=d, config=c),
            "scene": lambda: ISMSimulator(max_order=1, nsample=60, directivity=d).simulate(StaticScene(room, Source(S, so), MicrophoneArray(M, mo)), c).rirs,
            "dyn scene": lambda: ISMSimulator(max_order=1, nsample=60, directivity=d).simulate(
                DynamicScene(room, Source(S, so), MicrophoneArray(M, mo), S[None], M[None]), c).rirs,
        }
        if so is None and mo is None:
            calls["tensor"] = lambda: simulate_rir(room=room, sources=S, mics=M, max_order=1, nsample=60, directivity=d, config=c)
            calls["dyn"] = lambda: simulate_dynamic_rir(room=room, src_traj=S[None], mic_traj=M[None], max_order=1, nsample=60, directivity=d, config=c)
        for w, f in calls.items():
            exc = raises(f, ValueError)
            ctx.check((exc is not None) == must,
                      f"{w} {d} source orientation {'no' if so is None else 'yes'}, mic {'no' if mo is None else 'yes'}: "
                      f"{'accepted' if exc is None else 'refused: ' + str(exc)}")
            ctx.count()
            ctx.note((w, d, so is None, mo is None, exc is None))


def _unknown(case, ctx):
    dim, dt = case["dim"], torch.float64
    size, beta, room = _room(dim, dt)
    S, M = tens(points(SRC_F, size, 2), dt), tens(points(MIC_F, size, 2), dt)
    o = tens(VEC[dim][:2], dt)
    b = case["bad"]
    for d in (b, (b, "omni"), ("omni", b), ("cardioid", b), (b, "card")):
        if d == "":
            continue  # an empty name is indistinguishable from "not given"
        for w, f in {
            "static": lambda: simulate_rir(room=room, sources=S, mics=M, max_order=1, nsample=60, directivity=d, orientation=o, config=cfg()),
            "dynamic": lambda: simulate_dynamic_rir(room=room, src_traj=S[None], mic_traj=M[None], max_order=1, nsample=60, directivity=d, orientation=o, config=cfg()),
        }.items():
            ctx.check(raises(f, ValueError), f"{w}: unknown pattern {d!r} accepted")
            ctx.count()
            ctx.note((w, d))
    for d in (("omni",), ("omni", "omni", "omni")):
        ctx.check(raises(lambda: simulate_rir(room=room, sources=S, mics=M, max_order=1, nsample=60, directivity=d, config=cfg()), ValueError),
                  f"directivity {d} accepted")


def _badori(case, ctx):
    dim, dt = case["dim"], torch.float64
    size, beta, room = _room(dim, dt)
    S, M = tens(points(SRC_F, size, 3), dt), tens(points(MIC_F, size, 3), dt)
    good = tens(VEC[dim], dt)
    bad = [torch.ones(3, 4, dtype=dt), torch.ones(2, dim, dtype=dt), torch.full((dim,), math.nan, dtype=dt),
           torch.full((3, dim), math.inf, dtype=dt)]
    for b in bad:
        for f in (lambda: Source(S, b), lambda: MicrophoneArray(M, b)):
            ctx.check(raises(f, ValueError), f"orientation of shape {tuple(b.shape)} / {b.view(-1)[0]} accepted for 3 entities in {dim}D")
            ctx.count()
            ctx.note((dim, tuple(b.shape), str(b.view(-1)[0])))
    # shapes that are neither a direction nor angles
    wrong = [torch.ones(3, 3, dtype=dt), torch.ones(2, 3, dtype=dt)] if dim == 2 else [
        torch.ones(1, dtype=dt), torch.ones(4, dtype=dt), torch.ones(3, 1, dtype=dt), torch.ones(5, dtype=dt)]
    off = cfg()
    for b in wrong:
        what = f"{dim}D orientation of shape {tuple(b.shape)}"
        for label, pair in (("source", (b, good[0])), ("mic", (good[0], b))):
            for pat in ("cardioid", "figure8", ("omni", "cardioid") if label == "mic" else ("cardioid", "omni")):
                ctx.check(raises(lambda: simulate_rir(room=room, sources=S, mics=M, max_order=0, nsample=60, directivity=pat,
                                                      orientation=pair, config=off), ValueError), f"{what} for the {label} accepted by simulate_rir ({pat})")
                ctx.check(raises(lambda: simulate_dynamic_rir(room=room, src_traj=S[None], mic_traj=M[None], max_order=0, nsample=60, directivity=pat,
                                                              orientation=pair, config=off), ValueError, TypeError), f"{what} for the {label} accepted by simulate_dynamic_rir ({pat})")
                ctx.count()
        ctx.note((dim, tuple(b.shape), "call"))
    b = torch.ones(2, dim, dtype=dt)  # two directions for three sources
    ctx.check(raises(lambda: simulate_rir(room=room, sources=S, mics=M, max_order=0, nsample=60, directivity="cardioid",
                                          orientation=(b, good), config=cfg()), ValueError), "two directions for three sources accepted")
    ctx.check(raises(lambda: simulate_rir(room=room, sources=S, mics=M, max_order=0, nsample=60, directivity="cardioid",
                                          orientation=(good,), config=cfg()), ValueError), "orientation tuple of one accepted")


def _cfg(case, ctx):
    """The configuration's pattern is used exactly when none is passed."""
    dim, dt = case["dim"], torch.float64
    size, beta, room = _room(dim, dt)
    srcs, mics = points(SRC_F, size, 2), points(MIC_F, size, 3)
    sd, md = VEC[dim][:2], VEC[dim]
    S, M = Source(tens(srcs, dt), tens(sd, dt)), MicrophoneArray(tens(mics, dt), tens(md, dt))
    for cd in (None, "cardioid", ("bidir", "homni"), ("omni", "subcard")):
        for arg in (None, "omni", "hypcard", ("card", "omni")):
            eff = arg if arg is not None else (cd if cd is not None else "omni")
            pair = eff if isinstance(eff, tuple) else (eff, eff)
            c = cfg(frac_delay_length=21, directivity=cd)
            got = simulate_rir(room=room, sources=S, mics=M, max_order=1, nsample=220, directivity=arg, config=c)
            _judge(ctx, got, size, beta, srcs, mics, NAMES[pair[0]], NAMES[pair[1]], sd, md, dt, f"config {cd} argument {arg}", order=1)
            got = simulate_dynamic_rir(room=room, src_traj=S.positions[None], mic_traj=M.positions[None], orientation=(S.orientation, M.orientation),
                                       max_order=1, nsample=220, directivity=arg, config=c)[0]
            _judge(ctx, got, size, beta, srcs, mics, NAMES[pair[0]], NAMES[pair[1]], sd, md, dt, f"dyn config {cd} argument {arg}", order=1)
