"""P09: argument over configuration, sample counts, simulator vs direct call, refusals."""

import itertools
import math
import warnings
from fractions import Fraction

import torch

from mc.core import raises
from mc.simlib import *  # noqa: F403
from mc.simlib import MIC_F, SIZES, SRC_F, points, tens

from torchrir import DynamicScene, RIRResult, Scene, StaticScene
from torchrir.sim import ISMSimulator

ID = "P09"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of present/absent/conflicting parameter values at every place they can be given, on the real code against a decision table"
NOTE = (
    "The full cross product of where each parameter is given is executed on every entry point; the expected effective "
    "parameters come from a plain decision table and results are compared bit for bit with the fully explicit call."
)
RULE = (
    "cross product of {absent, a, b} for order, maximum time, sample count, directivity and device at argument / "
    "configuration / simulator, x static, dynamic, deprecated scenes; all single invalid values of every parameter and "
    "configuration field at every entry point. Non-trivial: distinct (entry, combination, outcome)."
)
ASSUMPTIONS = ["ceil(tmax*fs) may be taken of the exact or of the floating-point product", "CPU only"]

FS = 8000


def world(dim=3):
    dt = torch.float64
    size = SIZES[dim][0]
    room = Room.shoebox(size=list(size), fs=FS, beta=[0.9, 0.8, 0.7, 0.6, 0.85, 0.65][: 2 * dim], dtype=dt)
    o = tens([(0.3, 1.0, -0.4)[:dim]] * 2, dt)
    S = Source(tens(points(SRC_F, size, 2), dt), o)
    M = MicrophoneArray(tens(points(MIC_F, size, 2), dt), -o)
    st = torch.stack([S.positions, S.positions + 0.1, S.positions])
    mt = torch.stack([M.positions, M.positions, M.positions + 0.07])
    return room, S, M, st, mt


def counts(tmax):
    a = math.ceil(tmax * FS)
    b = math.ceil(Fraction(tmax) * Fraction(FS))
    return {a, b}


BAD_CFG = dict(
    fs=[0, -1.0], max_order=[-1], tmax=[0, -0.1], seed=[-1], frac_delay_length=[0, -3, 2, 80], sinc_lut_granularity=[0, -1],
    image_chunk_size=[0, -5], accumulate_chunk_size=[0, -5], rir_hpf_fc=[0, -10.0], rir_hpf_kwargs=[{"n": 0}, {"n": -2}],
)


def cases(tier):
    for dim in (2, 3):
        for ao, co, at, ct, an in itertools.product((None, 0, 2), (None, 1), (None, 0.011, 0.02), (None, 0.0153), (None, 37, 97)):
            yield dict(k="direct", dim=dim, ao=ao, co=co, at=at, ct=ct, an=an)
        for so, co, at, ct, an in itertools.product((0, 2), (None, 0, 1, 2), (None, 0.011, 0.02), (None, 0.011, 0.0153), (None, 37, 97)):
            yield dict(k="sim", dim=dim, so=so, co=co, at=at, ct=ct, an=an)
        for sd, cd, pd in itertools.product((None, "omni", "card", ("bidir", "omni")), (None, "hypcard", ("omni", "card")), (None, "f32", "f64")):
            yield dict(k="simdir", dim=dim, sd=sd, cd=cd, pd=pd)
        yield dict(k="badargs", dim=dim)
        for f in BAD_CFG:
            yield dict(k="badcfg", dim=dim, f=f)
    for part in range(8):
        yield dict(k="length", part=part, deep=tier != "quick")
    yield dict(k="types")
    yield dict(k="device")


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["_" + case["k"]](case, ctx)


def C(**kw):
    kw.setdefault("frac_delay_length", 21)
    return SimulationConfig(**kw)


def _both(room, S, M, st, mt, **kw):
    return {
        "static": lambda **x: simulate_rir(room=room, sources=S, mics=M, **{**kw, **x}),
        "dynamic": lambda **x: simulate_dynamic_rir(room=room, src_traj=st, mic_traj=mt, orientation=(S.orientation, M.orientation), **{**kw, **x}),
    }


def _direct(case, ctx):
    room, S, M, st, mt = world(case["dim"])
    order = case["ao"] if case["ao"] is not None else case["co"]
    tmax = case["at"] if case["at"] is not None else case["ct"]
    ns = {case["an"]} if case["an"] is not None else (counts(tmax) if tmax is not None else None)
    cfg_ = C(max_order=case["co"], tmax=case["ct"])
    for w, f in _both(room, S, M, st, mt).items():
        box = []
        exc = raises(lambda: box.append(f(max_order=case["ao"], tmax=case["at"], nsample=case["an"], config=cfg_)), ValueError)
        must = order is None or ns is None
        ctx.count()
        ctx.note((w, case, must))
        if not ctx.check((exc is not None) == must, f"{w} {case}: {'refused: %s' % exc if exc else 'accepted'}") or must:
            continue
        got = box[0]
        if not ctx.check(got.shape[-1] in ns, f"{w} {case}: {got.shape[-1]} samples, expected {ns}"):
            continue
        want = f(max_order=order, nsample=got.shape[-1], config=C())
        ctx.check(torch.equal(got, want), f"{w} {case}: not the result for order {order} and {got.shape[-1]} samples")
        if case["co"] is None and case["ct"] is None:
            # no configuration at all is the default configuration
            a = f(max_order=order, nsample=got.shape[-1])
            b = f(max_order=order, nsample=got.shape[-1], config=SimulationConfig())
            ctx.check(torch.equal(a, b), f"{w}: result without a configuration is not that of the default one")


def _scenes(room, S, M, st, mt):
    return {
        "StaticScene": (StaticScene(room=room, sources=S, mics=M), False),
        "DynamicScene": (DynamicScene(room=room, sources=S, mics=M, src_traj=st, mic_traj=mt), True),
        "Scene static": (Scene(room=room, sources=S, mics=M), False),
        "Scene dynamic": (Scene(room=room, sources=S, mics=M, src_traj=st, mic_traj=mt), True),
    }


def _same_scene(a, b, dyn):
    ok = a.room is b.room or (torch.equal(a.room.size, b.room.size) and a.room.fs == b.room.fs)
    ok = ok and torch.equal(a.sources.positions, b.sources.positions) and torch.equal(a.mics.positions, b.mics.positions)
    if dyn:
        ok = ok and torch.equal(a.src_traj, b.src_traj) and torch.equal(a.mic_traj, b.mic_traj)
    return ok


def _sim(case, ctx):
    room, S, M, st, mt = world(case["dim"])
    kw = {k: v for k, v in dict(tmax=case["at"], nsample=case["an"]).items() if v is not None}
    exc = raises(lambda: ISMSimulator(max_order=case["so"], **kw), ValueError)
    if not kw:
        ctx.check(exc, f"simulator without tmax or nsample accepted: {case}")
        ctx.note(("no length", case))
        return
    ctx.check(exc is None, f"simulator {case} refused: {exc}")
    sim = ISMSimulator(max_order=case["so"], **kw)
    conflict = (case["co"] is not None and case["co"] != case["so"]) or (
        case["at"] is not None and case["ct"] is not None and case["at"] != case["ct"])
    cfg_ = C(max_order=case["co"], tmax=case["ct"], seed=4)
    direct = _both(room, S, M, st, mt)
    for name, (scene, dyn) in _scenes(room, S, M, st, mt).items():
        box = []
        exc = raises(lambda: box.append(sim.simulate(scene, cfg_)), ValueError)
        ctx.count()
        ctx.note((name, case, conflict))
        if not ctx.check((exc is not None) == conflict, f"{name} {case}: {'refused: %s' % exc if exc else 'conflict accepted'}") or conflict:
            continue
        res = box[0]
        want = direct["dynamic" if dyn else "static"](max_order=case["so"], config=cfg_, **kw)
        ctx.check(torch.equal(res.rirs, want), f"{name} {case}: not the direct call's result")
        ctx.check(isinstance(res, RIRResult) and res.config == cfg_ and res.seed == 4, f"{name}: result does not carry configuration and seed")
        ctx.check(res.scene.is_dynamic() == dyn and _same_scene(res.scene, scene, dyn), f"{name}: result does not carry the scene")
        if case["co"] is None and case["ct"] is None:
            r2 = sim.simulate(scene)
            ctx.check(torch.equal(r2.rirs, direct["dynamic" if dyn else "static"](max_order=case["so"], **kw)), f"{name}: default configuration result differs")
            ctx.check(r2.config == SimulationConfig() and r2.seed is None, f"{name}: default configuration not carried")


def _simdir(case, ctx):
    """Directivity, dtype and per-axis counts reach the simulation; None falls back to the configuration."""
    room, S, M, st, mt = world(case["dim"])
    dt = {None: None, "f32": torch.float32, "f64": torch.float64}[case["pd"]]
    cfg_ = C(directivity=case["cd"])
    eff = case["sd"] if case["sd"] is not None else (case["cd"] or "omni")
    nb = (2, 1, 1)[: case["dim"]]
    for nbi in (None, nb, torch.tensor(nb)):
        sim = ISMSimulator(max_order=1, nsample=60, directivity=case["sd"], dtype=dt, nb_img=nbi)
        for name, (scene, dyn) in _scenes(room, S, M, st, mt).items():
            got = sim.simulate(scene, cfg_).rirs
            want = _both(room, S, M, st, mt)["dynamic" if dyn else "static"](max_order=1, nsample=60, directivity=eff, config=C(), dtype=dt, nb_img=nbi)
            ctx.check(torch.equal(got, want) and got.dtype == (dt or torch.float64), f"{name} {case} nb_img {nbi}: not the result for directivity {eff}, {dt}")
            ctx.count()
            ctx.note((name, case, str(nbi), round(float(want.abs().sum()), 9)))
    a = ISMSimulator(max_order=1, nsample=60, dtype=dt).simulate(StaticScene(room, S, M), cfg_).rirs
    b = simulate_rir(room=room, sources=S, mics=M, max_order=1, nsample=60, directivity="omni", config=C(), dtype=dt)
    ctx.check(torch.equal(a, b), f"{case}: the simulator's default directivity (omni) does not win over the configuration")


def _badargs(case, ctx):
    room, S, M, st, mt = world(case["dim"])
    dim = case["dim"]
    ok = dict(max_order=1, nsample=40, config=C())
    P, Q = S.positions, M.positions
    bad_static = [
        dict(max_order=-1), dict(nsample=0), dict(nsample=-4), dict(nsample=None), dict(nsample=None, tmax=0.0), dict(nsample=None, tmax=-1.0),
        dict(max_order=None), dict(nb_img=(1,) * (dim + 1)), dict(nb_img=(1,)), dict(nb_img=torch.ones(dim - 1)),
        dict(sources=P[None]), dict(sources=P[:, :-1]), dict(sources=torch.cat([P, P], 1)), dict(sources=P[0, :-1]),
        dict(mics=Q[None]), dict(mics=Q[:, :-1]), dict(mics=torch.cat([Q, Q], 1)), dict(mics=torch.tensor(1.0)),
        dict(directivity="nonsense"), dict(directivity=("omni", "omni", "omni")),
    ]
    for b in bad_static:
        exc = raises(lambda: simulate_rir(**{**dict(room=room, sources=S, mics=M, **ok), **b}), ValueError)
        ctx.check(exc is not None, f"static call accepted {_short(b)}")
        ctx.count()
        ctx.note(("static", dim, _short(b)))
    bad_dyn = [
        dict(max_order=-1), dict(nsample=0), dict(nsample=None), dict(nsample=None, tmax=-1.0), dict(max_order=None), dict(nb_img=(1,) * (dim + 1)),
        dict(src_traj=st[:2]), dict(mic_traj=mt[:1]), dict(src_traj=st[..., :-1]), dict(mic_traj=mt[..., :-1]), dict(src_traj=st[None]), dict(mic_traj=mt[None]),
        dict(src_traj=st[0, 0]), dict(directivity="nonsense"),
    ]
    for b in bad_dyn:
        exc = raises(lambda: simulate_dynamic_rir(**{**dict(room=room, src_traj=st, mic_traj=mt, **ok), **b}), ValueError)
        ctx.check(exc is not None, f"dynamic call accepted {_short(b)}")
        ctx.count()
        ctx.note(("dynamic", dim, _short(b)))
    for b in (dict(max_order=-1, nsample=3), dict(max_order=1, nsample=0), dict(max_order=1, nsample=-1), dict(max_order=1, tmax=0.0),
              dict(max_order=1, tmax=-0.5), dict(max_order=1), dict(max_order=1, tmax=0.1, nsample=0), dict(max_order=1, tmax=0.0, nsample=5)):
        ctx.check(raises(lambda: ISMSimulator(**b), ValueError), f"simulator accepted {b}")
        ctx.count()
        ctx.note(("simulator", str(b)))


def _short(b):
    return {k: (tuple(v.shape) if torch.is_tensor(v) else v) for k, v in b.items()}


def _badcfg(case, ctx):
    room, S, M, st, mt = world(case["dim"])
    for v in BAD_CFG[case["f"]]:
        c = SimulationConfig(**{case["f"]: v})
        calls = dict(_both(room, S, M, st, mt))
        entry = {w: (lambda f=f: f(max_order=1, nsample=40, config=c)) for w, f in calls.items()}
        for name, (scene, _) in _scenes(room, S, M, st, mt).items():
            entry[name] = lambda scene=scene: ISMSimulator(max_order=1, nsample=40).simulate(scene, c)
        entry["validate"] = c.validate
        entry["replace"] = lambda: SimulationConfig().replace(**{case["f"]: v})
        for w, f in entry.items():
            ctx.check(raises(f, ValueError), f"{w}: configuration {case['f']}={v!r} accepted")
            ctx.count()
            ctx.note((w, case, str(v)))


def _length(case, ctx):
    """ceil(tmax*fs) around and between sample boundaries."""
    for i, fs in enumerate((8000, 16000, 11025, 44100, 1000.0, 22050.5, 12345.678, 48000)):
        if i != case["part"]:
            continue
        room = Room.shoebox(size=[3.1, 4.3], fs=fs, beta=[0.5] * 4)
        s, m = torch.tensor([[1.0, 1.2]]), torch.tensor([[1.4, 2.2]])
        for n in list(range(1, 61 if not case["deep"] else 400)) + [977, 4096]:
            for tm in (n / fs, (n - 0.5) / fs, (n - 1e-3) / fs, (n + 1e-3) / fs, math.nextafter(n / fs, 1)):
                want = {math.ceil(tm * fs), math.ceil(Fraction(tm) * Fraction(fs))}
                c = cfg_short()
                a = simulate_rir(room=room, sources=s, mics=m, max_order=0, tmax=tm, config=c).shape[-1]
                b = simulate_dynamic_rir(room=room, src_traj=s, mic_traj=m, max_order=0, tmax=tm, config=c).shape[-1]
                d = ISMSimulator(max_order=0, tmax=tm).simulate(StaticScene(room, Source(s), MicrophoneArray(m)), c).rirs.shape[-1]
                ctx.check({a, b, d} <= want, f"tmax {tm!r} fs {fs}: lengths static {a}, dynamic {b}, scene {d}, expected {want}")
                ctx.count(3)
                ctx.note((fs, tm, a))


def cfg_short():
    return SimulationConfig(frac_delay_length=1, use_lut=False, rir_hpf_enable=False)


def _types(case, ctx):
    room, S, M, st, mt = world(3)
    for bad in (None, "room", [3, 4, 2], torch.ones(3), dict(size=[1, 2, 3]), S):
        ctx.check(raises(lambda: simulate_rir(room=bad, sources=S, mics=M, max_order=1, nsample=40), TypeError), f"room {type(bad)} accepted")
        ctx.check(raises(lambda: simulate_dynamic_rir(room=bad, src_traj=st, mic_traj=mt, max_order=1, nsample=40), TypeError), f"room {type(bad)} accepted (dynamic)")
        ctx.check(raises(lambda: StaticScene(room=bad, sources=S, mics=M), TypeError), f"scene room {type(bad)} accepted")
        ctx.check(raises(lambda: ISMSimulator(max_order=1, nsample=40).simulate(bad), TypeError), f"simulating a {type(bad)} accepted")
        ctx.count(4)
        ctx.note(str(type(bad)))
    for bad in (None, torch.ones(1, 3), M):
        ctx.check(raises(lambda: StaticScene(room=room, sources=bad, mics=M), TypeError), f"scene sources {type(bad)} accepted")
        ctx.check(raises(lambda: DynamicScene(room=room, sources=bad, mics=M, src_traj=st, mic_traj=mt), TypeError), f"dynamic scene sources {type(bad)} accepted")
    for bad in (None, torch.ones(1, 3), S):
        ctx.check(raises(lambda: StaticScene(room=room, sources=S, mics=bad), TypeError), f"scene mics {type(bad)} accepted")
        ctx.check(raises(lambda: DynamicScene(room=room, sources=S, mics=bad, src_traj=st, mic_traj=mt), TypeError), f"dynamic scene mics {type(bad)} accepted")


def _device(case, ctx):
    """Device and dtype: argument over configuration over inputs."""
    room, S, M, st, mt = world(3)
    both = _both(room, S, M, st, mt, max_order=1, nsample=40)
    for w, f in both.items():
        want = f(config=C())
        for ad, cd in itertools.product((None, "cpu", torch.device("cpu"), "auto", "CPU"), (None, "cpu", torch.device("cpu"), "auto", "cuda", "mps")):
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                got = f(config=C(device=cd), device=ad)
            fell = [x for x in rec if issubclass(x.category, RuntimeWarning)]
            uses_cfg = ad is None and cd in ("cuda", "mps") and not (torch.cuda.is_available() or torch.backends.mps.is_available())
            ctx.check(torch.equal(got, want) and got.device.type == "cpu", f"{w} device {ad} config {cd}: another result")
            ctx.check(bool(fell) == uses_cfg, f"{w} device {ad} config {cd}: {len(fell)} fallback warnings")
            ctx.count()
            ctx.note((w, str(ad), str(cd)))
        for dt in (torch.float32, torch.float64):
            ctx.check(f(config=C(), dtype=dt).dtype == dt, f"{w}: dtype {dt} not honoured")
