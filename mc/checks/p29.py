"""P29: devices resolve to what is available; data and results follow them."""

import itertools
import warnings
from unittest import mock

import numpy as np
import torch
from torch.overrides import TorchFunctionMode

from mc.core import raises

import torchrir
from torchrir import DynamicScene, MicrophoneArray, Room, Source, StaticScene
from torchrir import geometry, util
from torchrir.config import SimulationConfig
from torchrir.sim import ISMSimulator, simulate_dynamic_rir, simulate_rir
from torchrir.util import DeviceSpec, as_tensor, resolve_device

infer_device_dtype = getattr(util, "infer_device_dtype", None)

ID = "P29"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of accelerator availability, request spellings, preference orders and input tuples on the real resolvers and entry points, against a written rule"
NOTE = (
    "Availability of both accelerators is switched in all four ways; every spelling and preference order is resolved; every tuple of up to three inputs is resolved; entry points run with every dtype combination "
    "and, with an accelerator switched on, under a mode that records which device the library asks for."
)
RULE = "availability (4) x requests x all orders of all subsets of (cuda, mps, cpu); input tuples over 11 kinds up to length 3 x requests x dtypes; entry points x dtypes of source, mic and room x explicit dtype x config device. Non-trivial: distinct (request, answer)."
ASSUMPTIONS = [
    "no accelerator is present: availability is switched by replacing torch's own answers, and data meant for it stays on the CPU",
    "indices beyond the number of devices and names that are no device are not judged",
    "'auto' with a tensor among the inputs stays on that tensor's device",
]
AVAIL = tuple(itertools.product((False, True), repeat=2))
ORDERS = [o for n in range(4) for o in itertools.permutations(("cuda", "mps", "cpu"), n)]
STRINGS = ("auto", "AUTO", "Auto", "cpu", "CPU", "Cpu", "cuda", "CUDA", "Cuda", "cuda:0", "CUDA:0", "cuda:1", "mps", "MPS", "Mps", "mps:0", "MPS:0", "meta", "META", "cpu:0")
OBJECTS = ("cpu", "cuda", "cuda:1", "mps", "meta")


def cases(tier):
    deep = tier != "quick"
    for cuda, mps in AVAIL:
        yield dict(k="resolve", cuda=cuda, mps=mps)
        yield dict(k="as_tensor", cuda=cuda, mps=mps)
        yield dict(k="many", cuda=cuda, mps=mps)
        for dev in (None, *STRINGS[:4], "cuda", "CUDA", "cuda:1", "mps", "MPS", "meta", *(f"obj {o}" for o in OBJECTS)):
            yield dict(k="spec", cuda=cuda, mps=mps, dev=dev, deep=deep)
    for a, b, c in itertools.product(("f32", "f64"), ("f32", "f64"), ("f32", "f64", "int")):
        yield dict(k="results", src=a, mic=b, room=c)
    for cuda, mps in AVAIL:
        yield dict(k="api", cuda=cuda, mps=mps)


def run(case, ctx):
    with switched(case.get("cuda", False), case.get("mps", False)):
        globals()["_" + case["k"]](case, ctx)


class switched:
    def __init__(self, cuda, mps):
        self.p = [mock.patch.object(torch.cuda, "is_available", lambda: cuda), mock.patch.object(torch.backends.mps, "is_available", lambda: mps)]

    def __enter__(self):
        for p in self.p:
            p.start()

    def __exit__(self, *_):
        for p in self.p:
            p.stop()


def expected(req, cuda, mps, prefer=("cuda", "mps", "cpu")):
    """(device, whether a warning is due; None: not judged)"""
    if req is None:
        return torch.device("cpu"), False
    if isinstance(req, torch.device):
        return req, False
    low = req.lower()
    if low == "auto":
        for b in prefer:
            if b == "cpu" or (b == "cuda" and cuda) or (b == "mps" and mps):
                return torch.device(b), False
        return torch.device("cpu"), None
    kind = low.split(":")[0]
    ok = {"cuda": cuda, "mps": mps}.get(kind, True)
    return (torch.device(low), False) if ok else (torch.device("cpu"), True)


def same_device(a, b):
    """mps and mps:0, or cpu and cpu:0, name one device."""
    if a == b:
        return True
    return a.type == b.type and a.type in ("mps", "cpu") and {a.index, b.index} <= {None, 0}


def warned(fn):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        out = fn()
    return out, [w for w in ws if issubclass(w.category, RuntimeWarning)]


def _resolve(case, ctx):
    cuda, mps = case["cuda"], case["mps"]
    for req in (None, *STRINGS, *(torch.device(o) for o in OBJECTS)):
        for prefer in (None, *ORDERS):
            kw = {} if prefer is None else {"prefer": prefer}
            want, warn = expected(req, cuda, mps, ("cuda", "mps", "cpu") if prefer is None else prefer)
            got, ws = warned(lambda: resolve_device(req, **kw))
            ctx.count()
            what = f"resolve_device({req!r}, {kw}) with cuda={cuda} mps={mps}"
            ctx.check(isinstance(got, torch.device) and same_device(got, want), f"{what} is {got!r}, expected {want!r}")
            if warn is not None:
                ctx.check(bool(ws) == warn, f"{what}: warnings {[str(w.message) for w in ws]}")
            if isinstance(req, torch.device):
                ctx.check(got == req, f"{what}: explicit device object not kept")
            ctx.note((str(req), prefer, str(got), len(ws)))


VALUES = {
    "none": lambda: None,
    "scalar": lambda: 1.5,
    "list": lambda: [1.0, 2.0],
    "numpy": lambda: np.zeros(2),
    "f32": lambda: torch.zeros(2),
    "f64": lambda: torch.zeros(2, dtype=torch.float64),
    "f16": lambda: torch.zeros((), dtype=torch.float16),
    "i64": lambda: torch.zeros(3, dtype=torch.int64),
    "bool": lambda: torch.zeros(1, dtype=torch.bool),
    "meta": lambda: torch.zeros(2, device="meta"),
    "meta64": lambda: torch.zeros(2, device="meta", dtype=torch.float64),
}


def _spec(case, ctx):
    cuda, mps, dev = case["cuda"], case["mps"], case["dev"]
    req = torch.device(dev[4:]) if isinstance(dev, str) and dev.startswith("obj ") else dev
    pre = [("cuda", "mps", "cpu"), ("mps", "cuda", "cpu"), ("cpu", "cuda")] + ([("mps",), ()] if case["deep"] else [])
    made = {k: f() for k, f in VALUES.items()}
    for n in range(4):
        for names in itertools.product(VALUES, repeat=n):
            vals = [made[k] for k in names]
            tensors = [v for v in vals if torch.is_tensor(v)]
            for dtype in (None, torch.float64, torch.float32):
                for prefer in pre:
                    if n == 3 and prefer != pre[0] and not case["deep"]:
                        continue
                    if req is None or (isinstance(req, str) and req.lower() == "auto" and tensors):
                        want = tensors[0].device if tensors else torch.device("cpu")
                        warn = False
                    else:
                        want, warn = expected(req, cuda, mps, prefer)
                    wdt = dtype or (tensors[0].dtype if tensors else torch.float32)
                    (gd, gt), ws = warned(lambda: DeviceSpec(device=req, dtype=dtype, prefer=prefer).resolve(*vals))
                    ctx.count()
                    ctx.check(
                        same_device(gd, want) and gt == wdt and (warn is None or bool(ws) == warn),
                        lambda: f"DeviceSpec({req!r}, {dtype}, {prefer}).resolve{names} with cuda={cuda} mps={mps}: {gd}, {gt}, {len(ws)} warnings; expected {want}, {wdt}, warning {warn}",
                    )
                    if prefer == pre[0] and infer_device_dtype is not None:
                        (hd, ht), _ = warned(lambda: infer_device_dtype(*vals, device=req, dtype=dtype))
                        ctx.check(same_device(hd, want) and ht == wdt, lambda: f"infer_device_dtype{names} device={req!r}: {hd}, {ht}")
                    if n < 3:
                        ctx.note((str(req), names, str(dtype), prefer, str(gd), str(gt)))


def _many(case, ctx):
    """Long input tuples: the first tensor decides, wherever it stands and whatever follows."""
    cuda, mps = case["cuda"], case["mps"]
    made = {k: f() for k, f in VALUES.items()}
    plain = [k for k in VALUES if not torch.is_tensor(made[k])]
    tens = [k for k in VALUES if torch.is_tensor(made[k])]
    for n in (1, 4, 5, 6, 7, 8, 9, 10, 13, 16, 17, 33, 40):
        for fill, first, at in itertools.product(plain, (None, *tens), sorted({0, 1, 3, n // 2, n - 2, n - 1})):
            if not 0 <= at < n:
                continue
            names = [fill] * n
            if first is not None:
                names[at] = first
                names[at + 1 :] = [tens[(i + at) % len(tens)] for i in range(n - at - 1)]
            vals = [made[k] for k in names]
            t = made[first] if first is not None else None
            for req, dtype in (("auto", None), (None, None), ("cpu", None), ("AUTO", torch.float64)):
                if t is None and req is not None and req.lower() == "auto":
                    want = expected(req, cuda, mps)[0]
                else:
                    want = torch.device("cpu") if t is None or req == "cpu" else t.device
                wdt = dtype or (t.dtype if t is not None else torch.float32)
                (gd, gt), _ = warned(lambda: DeviceSpec(device=req, dtype=dtype).resolve(*vals))
                ctx.count()
                ctx.check(same_device(gd, want) and gt == wdt, lambda: f"DeviceSpec({req!r}, {dtype}) of {n} {fill} inputs, {first} first at {at}: {gd}, {gt}; expected {want}, {wdt}")
                if infer_device_dtype is not None:
                    (hd, ht), _ = warned(lambda: infer_device_dtype(*vals, device=req, dtype=dtype))
                    ctx.check(same_device(hd, want) and ht == wdt, lambda: f"infer_device_dtype of {n} {fill} inputs, {first} first at {at}, device={req!r}: {hd}, {ht}")
            ctx.note((n, fill, first, at))


def _as_tensor(case, ctx):
    cuda, mps = case["cuda"], case["mps"]
    for name, dev, dtype in itertools.product(VALUES, (None, "cpu", "CPU", "meta", "auto", "cuda", torch.device("cpu"), torch.device("meta")), (None, torch.float32, torch.float64, torch.int64)):
        if name == "none":
            continue
        want, warn = expected(dev, cuda, mps) if dev is not None else (None, False)
        if want is not None and want.type in ("cuda", "mps"):
            continue
        v = VALUES[name]()
        if torch.is_tensor(v) and v.device.type == "meta" and want is not None and want.type == "cpu":
            continue
        keep = v.clone() if torch.is_tensor(v) else np.array(v)
        got, ws = warned(lambda: as_tensor(v, device=dev, dtype=dtype))
        ctx.count()
        nat = torch.as_tensor(VALUES[name]())
        wd, wt = want or nat.device, dtype or nat.dtype
        what = f"as_tensor({name}, device={dev!r}, dtype={dtype})"
        ctx.check(same_device(got.device, wd) and got.dtype == wt and bool(ws) == warn, f"{what}: {got.device}, {got.dtype}, {len(ws)} warnings")
        ctx.check(got.shape == nat.shape, f"{what}: shape {tuple(got.shape)}")
        if got.device.type == "cpu":
            ctx.check(torch.equal(got, nat.to(wt)), f"{what}: value {got}")
            ctx.check(not torch.is_tensor(v) or torch.equal(v, keep), f"{what}: changed its input")
        ctx.note((name, str(dev), str(dtype), str(got.device), str(got.dtype)))


DT = {"f32": torch.float32, "f64": torch.float64, "int": torch.int64}
SRC = [[1.0, 1.2, 1.0], [2.2, 1.7, 1.4]]
MIC = [[2.5, 2.0, 1.0]]
SIZE = [4.0, 3.0, 2.0]


def parts(case):
    src = torch.tensor(SRC, dtype=DT[case["src"]])
    mic = torch.tensor(MIC, dtype=DT[case["mic"]])
    room = Room.shoebox(size=torch.tensor(SIZE).to(DT[case["room"]]), fs=8000, beta=[0.7] * 6)
    return src, mic, room


def _results(case, ctx):
    src, mic, room = parts(case)
    cfg0 = SimulationConfig()
    base = dict(max_order=1, nsample=200)
    for explicit, ori, dev, direct in itertools.product((None, torch.float32, torch.float64), (False, True), (None, "cpu", "cuda", torch.device("cpu"), "auto"), ("omni", "cardioid")):
        if direct == "cardioid" and not ori:
            continue
        so, mo = (torch.tensor([[1.0, 0, 0]] * 2, dtype=torch.float64), torch.tensor([[0.0, 1, 0]])) if ori else (None, None)
        s, m = Source(src, so), MicrophoneArray(mic, mo)
        want = explicit or DT[case["src"]]
        st, mt = src.unsqueeze(0).repeat(2, 1, 1), mic.unsqueeze(0).repeat(2, 1, 1)
        for name, fn in (
            ("simulate_rir", lambda cfg, d: simulate_rir(room=room, sources=s, mics=m, device=d, dtype=explicit, config=cfg, directivity=direct, **base)),
            ("simulate_rir on tensors", lambda cfg, d: simulate_rir(room=room, sources=src, mics=mic, orientation=(so, mo) if ori else None, device=d, dtype=explicit, config=cfg, directivity=direct, **base)),
            ("simulate_dynamic_rir", lambda cfg, d: simulate_dynamic_rir(room=room, src_traj=st, mic_traj=mt, orientation=(so, mo) if ori else None, device=d, dtype=explicit, config=cfg, directivity=direct, **base)),
            ("ISMSimulator", lambda cfg, d: ISMSimulator(device=d, dtype=explicit, directivity=direct, **base).simulate(StaticScene(room=room, sources=s, mics=m), cfg).rirs),
            ("ISMSimulator dynamic", lambda cfg, d: ISMSimulator(device=d, dtype=explicit, directivity=direct, **base).simulate(DynamicScene(room=room, sources=s, mics=m, src_traj=st, mic_traj=mt), cfg).rirs),
        ):
            for via in ("argument", "config"):
                if via == "config" and dev is None:
                    continue
                cfg, d = (cfg0, dev) if via == "argument" else (cfg0.replace(device=dev), None)
                got, ws = warned(lambda: fn(cfg, d))
                ctx.count()
                what = f"{name} src={case['src']} mic={case['mic']} room={case['room']} dtype={explicit} device={dev!r} by {via} {direct}"
                ctx.check(got.dtype == want, f"{what}: result is {got.dtype}, expected {want}")
                ctx.check(got.device.type == "cpu" and bool(torch.isfinite(got).all()) and float(got.abs().max()) > 0, f"{what}: result on {got.device}")
                ctx.check(bool(ws) == (dev == "cuda"), f"{what}: warnings {[str(w.message)[:60] for w in ws]}")
                ctx.note((name, str(explicit), str(dev), via, str(got.dtype), case["src"], case["mic"], case["room"]))


class Asked(TorchFunctionMode):
    """Records the devices the library asks for and keeps the data on the CPU."""

    def __init__(self):
        super().__init__()
        self.seen = set()

    def _map(self, v):
        if isinstance(v, torch.device) or (isinstance(v, str) and v.split(":")[0] in ("cuda", "mps")):
            d = torch.device(v)
            self.seen.add(d.type)
            if d.type in ("cuda", "mps"):
                return torch.device("cpu")
        return v

    def __torch_function__(self, func, types, args=(), kwargs=None):
        name = getattr(func, "__name__", "")
        args = tuple(self._map(a) for a in args) if name in ("to", "as_tensor", "tensor", "zeros", "arange", "full", "linspace", "ones", "empty", "eye") else args
        kwargs = {k: self._map(v) if k == "device" else v for k, v in (kwargs or {}).items()}
        return func(*args, **kwargs)


def _api(case, ctx):
    cuda, mps = case["cuda"], case["mps"]
    src, mic, room = parts(dict(src="f32", mic="f32", room="f32"))
    lists = dict(positions=SRC)
    calls = {
        "Room.shoebox": lambda d: Room.shoebox(size=SIZE, fs=8000, beta=[0.5] * 6, device=d),
        "Source.from_positions": lambda d: Source.from_positions(SRC, orientation=[[1.0, 0, 0]] * 2, device=d),
        "MicrophoneArray.from_positions": lambda d: MicrophoneArray.from_positions(MIC, device=d),
        "as_tensor": lambda d: as_tensor(SRC, device=d),
        "simulate_rir": lambda d: simulate_rir(room=room, sources=src, mics=mic, max_order=1, nsample=100, device=d),
        "simulate_dynamic_rir": lambda d: simulate_dynamic_rir(room=room, src_traj=src.unsqueeze(0), mic_traj=mic.unsqueeze(0), max_order=1, nsample=100, device=d),
        "config device": lambda d: simulate_rir(room=room, sources=src, mics=mic, max_order=1, nsample=100, config=SimulationConfig(device=d)),
        "config device dynamic": lambda d: simulate_dynamic_rir(room=room, src_traj=src.unsqueeze(0), mic_traj=mic.unsqueeze(0), max_order=1, nsample=100, config=SimulationConfig(device=d)),
        "ISMSimulator": lambda d: ISMSimulator(max_order=1, nsample=100, device=d).simulate(StaticScene(room=room, sources=Source(src), mics=MicrophoneArray(mic))),
    }
    for fname, args in (("linear_array", ([1.0, 2.0, 1.0],)), ("circular_array", ([1.0, 2.0, 1.0],)), ("binaural_array", ([1.0, 2.0, 1.0],))):
        fn = getattr(geometry, fname, None)
        if fn is not None:
            kw = dict(linear_array=dict(num=3, spacing=0.05), circular_array=dict(num=4, radius=0.1)).get(fname, {})
            calls[fname] = lambda d, fn=fn, args=args, kw=kw: fn(*args, device=d, **kw)
    for name, call in calls.items():
        for dev in ("auto", "cuda", "CUDA", "mps", "cpu", "cuda:0"):
            want, warn = expected(dev, cuda, mps)
            mode = Asked()

            def go():
                with mode:
                    return call(dev)

            _, ws = warned(go)
            ctx.count()
            acc = mode.seen & {"cuda", "mps"}
            ctx.check(acc == ({want.type} - {"cpu"}), f"{name}(device={dev!r}) with cuda={cuda} mps={mps}: asked for {sorted(mode.seen)}, expected {want.type}")
            ctx.check(bool(ws) == warn, f"{name}(device={dev!r}) with cuda={cuda} mps={mps}: warnings {[str(w.message)[:60] for w in ws]}")
            ctx.note((name, dev, cuda, mps, sorted(mode.seen)))
