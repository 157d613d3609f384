"""P25: saved audio reads back as what was saved, through every entry point."""

import itertools
import logging
import shutil
import warnings
from pathlib import Path

import numpy as np
import soundfile as sf
import torch

import torchrir
import torchrir.io as tio
import torchrir.io.audio as taudio
from torchrir.io import AudioData

from mc.core import raises

ID = "P25"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of audio shapes, values, dtypes, formats, subtypes, normalisation settings and entry points on the real code, read back with soundfile directly"
NOTE = (
    "Every combination of shape (all channel and frame counts around the layout rule), dtype, value pattern, subtype, peak and entry point in the alphabet is written and read back both by an independent "
    "reader and by every loading entry point; refusals are checked to leave no file."
)
RULE = (
    "shapes 1-D 0..40 and 2-D 1..10 x {1..12,40} x 6 value patterns x dtypes x wav/flac/aiff/ogg subtypes x normalize/peak x 8 saving and 8 loading entry points. Non-trivial: distinct (file contents)."
)
ASSUMPTIONS = ["2-D tensors with at most 8 rows, or fewer rows than columns, are channels first", "integer formats clip at full scale", "lossy formats are compared by shape, rate and subtype only"]

LSB = {"PCM_U8": 2.0**-7, "PCM_S8": 2.0**-7, "PCM_16": 2.0**-15, "PCM_24": 2.0**-23, "PCM_32": 2.0**-31, "FLOAT": 0.0, "DOUBLE": 0.0}
FORMATS = [("wav", s) for s in LSB if s != "PCM_S8"] + [("flac", "PCM_S8"), ("flac", "PCM_16"), ("flac", "PCM_24"), ("aiff", "PCM_16"), ("aiff", "FLOAT"), ("WAV", "PCM_24")]
NORM = [(True, 1.0), (True, 0.5), (True, 0.9), (False, 1.0), (True, 1e-3), (True, 2.0)]
SHAPES = [(n,) for n in (0, 1, 2, 7, 8, 9, 10, 40)] + [(c, n) for c in (1, 2, 3, 7, 8, 9, 10) for n in (1, 2, 7, 8, 9, 10, 11, 12, 40)]
DT = [torch.float32, torch.float64, torch.float16, torch.bfloat16, torch.int16, torch.int32]


def values(shape, kind):
    n = int(np.prod(shape))
    g = np.random.RandomState(n + 17 * len(shape))
    x = g.uniform(-0.8, 0.8, n)
    if kind == "zero":
        x = np.zeros(n)
    elif kind == "quiet":
        x = x * 1e-4
    elif kind == "loud":
        x = x * 30
    elif kind == "onepeak" and n:
        x = x * 0.1
        x[-1] = -0.7
    elif kind == "tiny":
        x = x * 1e-12
    return torch.tensor(x.reshape(shape), dtype=torch.float64)


def cases(tier):
    for i in range(len(SHAPES)):
        yield dict(k="shape", i=i)
    for f in range(len(FORMATS)):
        for dt in range(len(DT)):
            yield dict(k="fmt", f=f, dt=dt)
    for e in range(len(SAVERS)):
        yield dict(k="entry", e=e)
    for kind in range(6):
        yield dict(k="large", kind=kind)
    for i in range(11):
        yield dict(k="peak", i=i)
    yield dict(k="load")
    yield dict(k="refuse")
    yield dict(k="data")
    yield dict(k="backend")
    yield dict(k="lossy")


def run(case, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["_" + case["k"]](case, ctx)


def frames_first(x):
    a = x.detach().double().numpy()
    if a.ndim == 1:
        return a[:, None]
    return a.T if a.shape[0] <= 8 or a.shape[0] < a.shape[1] else a


def expected(x, norm, peak):
    a = frames_first(x.to(torch.float32))
    m = np.abs(a).max() if a.size else 0.0
    return a / m * peak if norm and m > 0 else a


def tol(exp, subtype):
    return (1.01 * LSB[subtype] if subtype in LSB else 0) + 4e-7 * np.abs(exp)


def judge(ctx, what, path, x, fs, norm, peak, subtype):
    ctx.count()
    exp = expected(x, norm, peak)
    info = sf.info(str(path))
    if not ctx.check((info.samplerate, info.frames, info.channels, info.subtype) == (fs, *exp.shape, subtype), f"{what}: file has {info.samplerate, info.frames, info.channels, info.subtype}, expected {(fs, *exp.shape, subtype)}"):
        return None
    got = sf.read(str(path), dtype="float64", always_2d=True)[0]
    if subtype not in ("FLOAT", "DOUBLE"):
        exp = np.clip(exp, -1, 1)
    bad = np.abs(got - exp) > tol(exp, subtype)
    if not ctx.check(not bad.any(), lambda: f"{what}: samples differ by {np.abs(got - exp).max()} at {np.argwhere(bad)[:3].tolist()}"):
        return None
    if exp.size and np.abs(exp).max() > 0 and norm:
        ctx.check(abs(np.abs(got).max() - min(peak, 1.0 if subtype not in ("FLOAT", "DOUBLE") else peak)) <= 1.01 * LSB[subtype] + 1e-6 * peak, f"{what}: peak {np.abs(got).max()}")
    # reading through the library
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        y, rate = taudio.load_audio(path)
    ch0 = sf.read(str(path), dtype="float32", always_2d=True)[0][:, 0]
    ctx.check(rate == fs and y.dtype == torch.float32 and y.shape == (exp.shape[0],) and np.array_equal(y.numpy(), ch0), f"{what}: load_audio returns {tuple(y.shape)} {y.dtype} at {rate}, not channel 0 of the file")
    warned = any(issubclass(m.category, RuntimeWarning) for m in w)
    ctx.check(warned == (exp.shape[1] > 1), f"{what}: {'warned' if warned else 'no warning'} for {exp.shape[1]} channels")
    i = taudio.info_audio(path)
    ok = (i.sample_rate, i.num_frames, i.num_channels, i.subtype, i.format) == (fs, *exp.shape, subtype, info.format) and abs(i.duration - exp.shape[0] / fs) < 1e-9
    ctx.check(ok, f"{what}: info_audio says {i}")
    d = taudio.load_audio_data(path)
    ctx.check(np.array_equal(d.audio.numpy(), ch0) and (d.sample_rate, d.format, d.subtype) == (fs, info.format, subtype), f"{what}: load_audio_data gives {d.sample_rate, d.format, d.subtype}")
    ctx.note(got.tobytes()[:4000] + repr((got.shape, subtype)).encode())
    return got


def _shape(case, ctx):
    shape = SHAPES[case["i"]]
    d = ctx.dir()
    for kind, (norm, peak), sub, dt in itertools.product(("noise", "zero", "quiet", "loud", "onepeak", "tiny"), NORM, ("PCM_16", "FLOAT"), (torch.float32, torch.float64)):
        if peak > 1 and sub != "FLOAT":
            continue
        x = values(shape, kind).to(dt)
        before = x.clone()
        p = d / "a.wav"
        fs = 16000 if kind != "loud" else 44100
        taudio.save(p, x, fs, normalize=norm, peak=peak, subtype=sub)
        judge(ctx, f"{shape} {kind} normalize={norm} peak={peak} {sub} {dt}", p, x, fs, norm, peak, sub)
        ctx.check(torch.equal(x, before), f"{shape} {kind}: input changed")
    shutil.rmtree(d)


def _fmt(case, ctx):
    ext, sub = FORMATS[case["f"]]
    dt = DT[case["dt"]]
    d = ctx.dir()
    for shape, kind, (norm, peak), layout in itertools.product(((9,), (2, 12), (12, 2), (8, 8), (8, 3)), ("noise", "onepeak", "zero", "loud"), NORM, ("plain", "strided", "grad")):
        if peak > 1 and sub not in ("FLOAT", "DOUBLE"):
            continue
        x = values(shape, kind)
        x = (x * (1000 if not dt.is_floating_point else 1)).to(dt)
        if not dt.is_floating_point and not norm and sub not in ("FLOAT", "DOUBLE"):
            x = x.clamp(-1, 1)
        if layout == "strided":
            x = torch.stack([x, x + 1], -1)[..., 0]
        elif layout == "grad":
            if not dt.is_floating_point:
                continue
            x = x.clone().requires_grad_(True)
        before = x.detach().clone()
        p = d / f"a.{ext}"
        fs = 8000
        taudio.save_audio(p, x, fs, normalize=norm, peak=peak, subtype=sub)
        judge(ctx, f"{ext} {shape} {kind} {layout} {dt} normalize={norm} peak={peak} {sub}", p, x, fs, norm, peak, sub)
        ctx.check(torch.equal(x.detach(), before), f"{ext} {shape} {kind} {layout} {dt}: input changed")
    shutil.rmtree(d)


BIG = [
    [(4095,), (4096,), (4097,), (8193,), (65535,), (65537,)], [(70001,), (131073,), (200001,)], [(2, 9000), (2, 65537), (6, 70001), (8, 30000)], [(9, 20000), (16, 17), (16, 16), (17, 16), (32, 9000), (64, 2000)],
    [(9000, 2), (9000, 1), (9000, 8), (9000, 9), (70001, 2), (200, 150)],
]
RATES = [1, 2, 7, 50, 999, 4000, 11025, 12000, 16001, 24000, 32000, 44100, 47999, 48000, 88200, 96000, 176400, 192000, 384000]


LONG = [(2097157,), (2, 1048579), (1048579, 2), (9, 233021), (1500001,), (700001,)]


def _peak(case, ctx):
    """The loudest sample anywhere: at every place of small audio, around every power of two of long audio."""
    d = ctx.dir()
    p = d / "a.wav"
    if case["i"] < len(LONG):
        shape = LONG[case["i"]]
        n = int(np.prod(shape))
        at = sorted({1, n // 2 - 1, n - 2} | {2**k + s for k in range(10, 22, 2) for s in (-1, 1) if 2**k + 1 < n})
        x = (values(shape, "noise") * 0.1).to(torch.float32)
    else:
        shape = [(65,), (130,), (9, 17), (3, 40), (40, 3)][case["i"] - len(LONG)]
        n = int(np.prod(shape))
        at = range(n)
        x = (values(shape, "noise") * 0.1).to(torch.float32)
    for k in at:
        y = x.clone()
        y.view(-1)[k] = -0.77
        taudio.save(p, y, 16000, normalize=True, peak=0.9, subtype="FLOAT")
        if judge(ctx, f"{shape} peak at {k}", p, y, 16000, True, 0.9, "FLOAT") is None:
            return
    shutil.rmtree(d)


def _large(case, ctx):
    """Audio of up to seconds and of many channels, the peak anywhere, and every common (and some uncommon) sample rate."""
    d = ctx.dir()
    p = d / "a.wav"
    if case["kind"] < len(BIG):
        for shape, (norm, peak), sub in itertools.product(BIG[case["kind"]], ((True, 1.0), (True, 0.5), (False, 1.0)), ("PCM_16", "FLOAT")):
            n = int(np.prod(shape))
            for at in (0, n // 3, n - 1) if norm else (0,):
                x = (values(shape, "noise") * 0.1).reshape(-1)
                x[at] = -0.77
                x = x.reshape(shape).to(torch.float32)
                taudio.save(p, x, 48000, normalize=norm, peak=peak, subtype=sub)
                if judge(ctx, f"{shape} peak at {at} normalize={norm} peak={peak} {sub}", p, x, 48000, norm, peak, sub) is None:
                    return
    else:
        for fs, (name, fn), shape in itertools.product(RATES, SAVERS.items(), ((9,), (2, 300))):
            x = values(shape, "noise")
            q = d / "sub" / "b.wav" if name.startswith("scene") else p
            fn(q, x, fs, **({"subtype": "PCM_24"} if name == "attribute" else {}))
            judge(ctx, f"{name} at {fs} Hz {shape}", q, x, fs, True, 1.0, "PCM_24" if name in ("attribute", "audio.save_audio_data") else "PCM_16")
    shutil.rmtree(d)


def attr_save(p, x, fs, normalize=True, peak=1.0, subtype=None):
    y = x.clone()
    y._torchrir_subtype = subtype
    taudio.save(p, y, fs, normalize=normalize, peak=peak)


def scene_save(p, x, fs):
    """With a logger the file is the same and one line names it."""
    lines = []
    log = logging.Logger("mc.p25", logging.DEBUG)
    h = logging.Handler()
    h.emit = lambda r: lines.append(r.getMessage())
    log.addHandler(h)
    out = tio.save_scene_audio(out_dir=p.parent, audio=x, fs=fs, audio_name=p.name, logger=log)
    assert len(lines) == 1 and str(p) in lines[0], f"log of a saved scene: {lines}"
    return out


SAVERS = {
    "audio.save": lambda p, x, fs, **k: taudio.save(p, x, fs, **k),
    "audio.save_audio": lambda p, x, fs, **k: taudio.save_audio(p, x, fs, **k),
    "audio.save_audio_data": lambda p, x, fs, **k: taudio.save_audio_data(p, AudioData(x, fs, "WAV", "PCM_24"), **k),
    "io.save_wav": lambda p, x, fs, **k: tio.save_wav(p, x, fs, **k),
    "io.save_wav backend": lambda p, x, fs, **k: tio.save_wav(p, x, fs, backend="soundfile", format="wav", **k),
    "io.save_audio": lambda p, x, fs, **k: tio.save_audio(p, x, fs, **k),
    "io.save": lambda p, x, fs, **k: tio.save(p, x, fs, **k),
    "torchrir.save": lambda p, x, fs, **k: torchrir.save(p, x, fs, **k),
    "torchrir.save backend": lambda p, x, fs, **k: torchrir.save(p, x, fs, backend="soundfile", format="WAV", **k),
    "io.save_audio_data": lambda p, x, fs, **k: tio.save_audio_data(p, AudioData(x, fs), **k),
    "attribute": attr_save,
    "scene with a log": scene_save,
    "scene": lambda p, x, fs, **k: tio.save_scene_audio(out_dir=p.parent, audio=x, fs=fs, audio_name=p.name),
}


def _entry(case, ctx):
    """Same arguments through every saving entry point: the same bytes; defaults are peak 1 and PCM 16."""
    name = list(SAVERS)[case["e"]]
    fn = SAVERS[name]
    d = ctx.dir()
    (d / "r").mkdir()
    for shape, kind, (norm, peak), sub in itertools.product(((9,), (2, 12), (12, 3), (1, 5), (0,)), ("noise", "zero", "loud"), NORM, ("PCM_16", "PCM_24", "FLOAT", None)):
        if peak > 1 and sub != "FLOAT" or (name.startswith("scene") and (not norm or peak != 1.0 or sub)) or (name == "attribute" and sub is None):
            continue
        x = values(shape, kind)
        what = f"{name} {shape} {kind} normalize={norm} peak={peak} subtype={sub}"
        p = d / "sub" / "b.wav" if name.startswith("scene") else d / "b.wav"
        kw = {} if sub is None else {"subtype": sub}
        default = norm and peak == 1.0
        if not default:
            kw.update(normalize=norm, peak=peak)
        before = x.clone()
        ret = fn(p, x, 22050, **kw)
        if name.startswith("scene"):
            ctx.check(ret == p, f"{what}: returned {ret}")
        want = sub or ("PCM_24" if name == "audio.save_audio_data" else "PCM_16")
        judge(ctx, what, p, x, 22050, norm, peak, want)
        ref = d / "r" / "b.wav"
        taudio.save(ref, x, 22050, normalize=norm, peak=peak, subtype=want)
        a, b = (sf.read(str(q), dtype="float64", always_2d=True)[0] for q in (p, ref))
        ctx.check(np.array_equal(a, b), f"{what}: differs from audio.save")
        ctx.check(torch.equal(x, before), f"{what}: input changed")
    shutil.rmtree(d)


LOADERS = {
    "audio.load": (taudio.load, True), "audio.load_audio": (taudio.load_audio, False), "io.load_wav": (tio.load_wav, True), "io.load_wav backend": (lambda p: tio.load_wav(p, backend="soundfile"), True),
    "io.load_audio": (tio.load_audio, False), "io.load_audio backend": (lambda p: tio.load_audio(p, backend="soundfile"), False), "io.load": (tio.load, True), "torchrir.load": (torchrir.load, True),
    "audio.load_audio_data": (lambda p: (lambda d: (d.audio, d.sample_rate))(taudio.load_audio_data(p)), False), "io.load_audio_data": (lambda p: (lambda d: (d.audio, d.sample_rate))(tio.load_audio_data(p)), False),
}
INFOS = {"audio.info_audio": (taudio.info_audio, False), "io.info_audio": (tio.info_audio, False), "io.info_wav": (tio.info_wav, True), "io.info": (tio.info, True), "io.info_wav backend": (lambda p: tio.info_wav(p, backend="soundfile"), True)}

SPELLINGS = [(e, "PCM_16") for e in ("wave", "Wav", "wAv", "WAVE", "Wave", "FLAC", "Aiff")]


def _load(case, ctx):
    d = ctx.dir()
    for (ext, sub), ch, n, fs in itertools.product(FORMATS + SPELLINGS, (1, 2, 5), (0, 1, 13), (8000, 44100)):
        if ext.lower() == "flac" and n == 0:
            continue
        x = np.random.RandomState(n + ch).uniform(-0.9, 0.9, (n, ch))
        p = d / f"c.{ext}"
        sf.write(str(p), x, fs, subtype=sub, format={"w": "WAV", "f": "FLAC", "a": "AIFF"}[ext[0].lower()])
        ref = sf.read(str(p), dtype="float32", always_2d=True)[0]
        si = sf.info(str(p))
        wav = ext.lower() in ("wav", "wave")
        for name, (fn, only) in LOADERS.items():
            ctx.count()
            what = f"{name} of {ext} {sub} {ch} x {n}"
            if only and not wav:
                ctx.check(raises(lambda: fn(p), ValueError), f"{what}: accepted")
                continue
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                y, rate = fn(p)
            run_w = sum(issubclass(m.category, RuntimeWarning) for m in w)
            ctx.check(rate == fs and y.dtype == torch.float32 and np.array_equal(y.numpy(), ref[:, 0]), f"{what}: wrong samples or rate {rate}")
            ctx.check((run_w > 0) == (ch > 1), f"{what}: {run_w} warnings")
            if name in ("io.load", "torchrir.load"):
                ctx.check(any(issubclass(m.category, DeprecationWarning) for m in w), f"{what}: no deprecation warning")
            ctx.note((what, y.numpy().tobytes()))
        for name, (fn, only) in INFOS.items():
            ctx.count()
            if only and not wav:
                ctx.check(raises(lambda: fn(p), ValueError), f"{name} of {ext}: accepted")
                continue
            i = fn(p)
            ctx.check((i.sample_rate, i.num_frames, i.num_channels, i.format, i.subtype) == (fs, n, ch, si.format, sub) and abs(i.duration - n / fs) < 1e-9, f"{name} of {ext} {sub} {ch} x {n}: {i}")
    shutil.rmtree(d)


def _refuse(case, ctx):
    d = ctx.dir()
    x = values((20,), "noise")
    wavonly = ("audio.save", "io.save_wav", "io.save", "torchrir.save")
    for name in wavonly:
        for fn in ("a.flac", "a.ogg", "a.aiff", "a", "a.wav.flac", "wav", "a.mp3", "a.txt", ".wav.ogg"):
            ctx.count()
            p = d / fn
            exc = raises(lambda: SAVERS[name](p, x, 16000), ValueError)
            ctx.check(exc is not None and not p.exists(), f"{name} to {fn}: {'accepted' if exc is None else 'left a file'}")
            ctx.note((name, fn))
        for fn in ("a.wav", "a.WAV", "a.Wave", "b.flac.wav"):
            SAVERS[name](d / fn, x, 16000)
            judge(ctx, f"{name} to {fn}", d / fn, x, 16000, True, 1.0, "PCM_16")
    for fn in ("a", "a.dat", "a.flac", "a.wave", "a.wav"):
        for name, call in (("save_wav", tio.save_wav), ("io.save", tio.save), ("torchrir.save", torchrir.save)):
            ctx.count()
            call(d / fn, x, 16000, format="wav")
            ctx.check(sf.info(str(d / fn)).format == "WAV", f"{name} to {fn} with format=wav wrote {sf.info(str(d / fn)).format}")
            judge(ctx, f"{name} to {fn} format=wav", d / fn, x, 16000, True, 1.0, "PCM_16")
            (d / fn).unlink()
    for name, fn in SAVERS.items():
        if name.startswith("scene"):
            continue
        for peak in (0.0, -1.0):
            ctx.count()
            p = d / "peak.wav"
            exc = raises(lambda: fn(p, x, 16000, normalize=True, peak=peak), ValueError)
            ctx.check(exc is not None and not p.exists(), f"{name} peak={peak}: {'accepted' if exc is None else 'left a file'}")
    for fmt in ("flac", "ogg", "mp3"):
        ctx.count()
        p = d / "fmt.wav"
        for fn in (lambda: tio.save_wav(p, x, 16000, format=fmt), lambda: tio.save(p, x, 16000, format=fmt), lambda: torchrir.save(p, x, 16000, format=fmt)):
            ctx.check(raises(fn, ValueError) and not p.exists(), f"format={fmt} accepted by a wav-only saver")
    sf.write(str(d / "ok.wav"), x.numpy(), 16000)
    for fn in (lambda: tio.load_wav(d / "ok.wav", format="flac"), lambda: tio.load(d / "ok.wav", format="flac"), lambda: torchrir.load(d / "ok.wav", format="flac"), lambda: tio.info_wav(d / "ok.wav", format="flac"), lambda: tio.info(d / "ok.wav", format="flac")):
        ctx.count()
        ctx.check(raises(fn, ValueError), "format=flac accepted by a wav-only loader")
    shutil.copy(d / "ok.wav", d / "noext")
    for fn in (lambda: tio.load_wav(d / "noext", format="wav"), lambda: torchrir.load(d / "noext", format="WAV")):
        ctx.count()
        y, rate = fn()
        ctx.check(rate == 16000 and np.array_equal(y.numpy(), sf.read(str(d / "ok.wav"), dtype="float32")[0]), "explicit format does not load a file without suffix")
    for fn in (lambda: tio.load_wav(d / "noext"), lambda: tio.info_wav(d / "noext"), lambda: taudio.load(d / "noext")):
        ctx.check(raises(fn, ValueError), "file without suffix accepted by a wav-only loader")
    for name, (fn, _) in LOADERS.items():
        ctx.count()
        err = None
        try:
            fn(d / "absent.wav")
        except Exception as exc:  # noqa: BLE001
            err = exc
        ctx.check(err is not None, f"{name}: missing file accepted")
    shutil.rmtree(d)


def _data(case, ctx):
    """Explicit container: load, save, load keeps everything; an explicit subtype wins over the stored one."""
    d = ctx.dir()
    for (ext, sub), over, n, (norm, peak) in itertools.product(FORMATS, (None, "PCM_16", "PCM_24"), (1, 20), NORM[:4]):
        x = np.random.RandomState(n).uniform(-0.7, 0.7, n)
        p, q = d / f"p.{ext}", d / f"q.{ext}"
        sf.write(str(p), x, 11025, subtype=sub)
        a = tio.load_audio_data(p)
        keep = a.audio.clone()
        tio.save_audio_data(q, a, normalize=norm, peak=peak, **({} if over is None else {"subtype": over}))
        judge(ctx, f"container {ext} {sub} over={over} n={n} normalize={norm}", q, a.audio, 11025, norm, peak, over or sub)
        ctx.check(torch.equal(a.audio, keep), "container audio changed")
        if not norm and over is None:
            b = tio.load_audio_data(q)
            ctx.check(torch.equal(b.audio, a.audio) and (b.sample_rate, b.format, b.subtype) == (a.sample_rate, a.format, a.subtype), f"container {ext} {sub}: round trip changes it")
    shutil.rmtree(d)


def _backend(case, ctx):
    d = ctx.dir()
    x = values((20,), "noise")
    sf.write(str(d / "ok.wav"), x.numpy(), 16000)
    ctx.check("soundfile" in tio.list_audio_backends() and tio.get_audio_backend() in tio.list_audio_backends(), f"backends {tio.list_audio_backends()}, default {tio.get_audio_backend()}")
    old = tio.get_audio_backend()
    for bad in ("nope", "", "SoundFile"):
        ctx.count()
        ctx.check(raises(lambda: tio.set_audio_backend(bad), ValueError) and tio.get_audio_backend() == old, f"backend {bad!r} accepted as default")
        if bad:
            for fn in (lambda: tio.load_wav(d / "ok.wav", backend=bad), lambda: tio.load_audio(d / "ok.wav", backend=bad), lambda: tio.info_wav(d / "ok.wav", backend=bad), lambda: tio.save_wav(d / "n.wav", x, 8000, backend=bad), lambda: tio.save_audio(d / "n.wav", x, 8000, backend=bad)):
                ctx.check(raises(fn, ValueError) and not (d / "n.wav").exists(), f"backend {bad!r} accepted")
    for name in tio.list_audio_backends():
        tio.set_audio_backend(name)
        ctx.check(tio.get_audio_backend() == name, f"default backend is {tio.get_audio_backend()} after setting {name}")
        tio.save_wav(d / "n.wav", x, 8000)
        judge(ctx, f"backend {name}", d / "n.wav", x, 8000, True, 1.0, "PCM_16")
    tio.set_audio_backend(old)
    ctx.note("backends")
    shutil.rmtree(d)


def _lossy(case, ctx):
    d = ctx.dir()
    for ext, sub, ch in itertools.product(("ogg", "wav"), ("VORBIS", "ULAW", "ALAW", "IMA_ADPCM"), (1, 2)):
        if (ext == "ogg") != (sub == "VORBIS"):
            continue
        x = values((ch, 3000), "noise") if ch > 1 else values((3000,), "noise")
        p = d / f"l.{ext}"
        taudio.save_audio(p, x, 16000, subtype=sub)
        ctx.count()
        i = taudio.info_audio(p)
        ctx.check((i.sample_rate, i.num_channels, i.subtype) == (16000, ch, sub) and i.num_frames >= 3000, f"{ext} {sub}: {i}")
        y, rate = taudio.load_audio(p)
        ctx.check(rate == 16000 and y.shape[0] == i.num_frames, f"{ext} {sub}: loads {tuple(y.shape)}")
        if sub in ("ULAW", "ALAW"):
            e = frames_first(x)[:, 0]
            e = e / np.abs(frames_first(x)).max()
            ctx.check(np.abs(y.double().numpy() - e).max() < 0.05, f"{sub}: samples differ")
        ctx.note((ext, sub, ch))
    shutil.rmtree(d)
