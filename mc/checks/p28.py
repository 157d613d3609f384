"""P28: adding audio to a scene video is atomic and leaves no residue; export never raises."""

import contextlib
import itertools
import logging
import os
import subprocess
from pathlib import Path
from unittest import mock

import numpy as np
import soundfile as sf
import torch

from mc.core import raises
from mc.faultfs import Steps, no_space, snapshot
from mc.vizlib import plt, recording

import torchrir.viz as viz

ID = "P28"
LEVEL = "fault_enumeration"
TECHNIQUE = "exhaustive enumeration of encoder behaviours, mixture files, channel requests, failing file-system steps and export options on the real code, with a real stand-in encoder program on PATH"
NOTE = (
    "A stand-in ffmpeg on PATH plays every behaviour (absent, unstartable, refusing, dying, silent, succeeding), alone and in sequence over the 2D and 3D videos; every Python file-system step of the mux fails once; "
    "every state of the folder between steps is inspected."
)
RULE = (
    "encoder behaviours (9) x mixture kinds (20) x channel requests (12); behaviour sequences over both videos; every file-system step failing; every render step failing; "
    "export options x dimension x rates; strides x steps x rates of single animations; ordinary names for the user's files beside the video. Non-trivial: distinct (encoder calls, folder contents, log levels)."
)
ASSUMPTIONS = [
    "the silent video is written by a stand-in for matplotlib's encoder writer, except in the end-to-end cases",
    "an encoder that reports success and leaves a damaged output is not recognisable and not included",
    "if removing a temporary file itself fails, the file may stay",
]
LOG = logging.getLogger("mc.p28")
LOG.propagate = False
LOG.setLevel(logging.DEBUG)
logging.getLogger("matplotlib").setLevel(logging.ERROR)

FAKE = """#!/bin/sh
D='{d}'
n=$(/bin/cat "$D/n")
b=ok; i=0
while read l; do [ $i = $n ] && b=$l; i=$((i+1)); done < "$D/b"
k=0; prev=; out=
: > "$D/args.$n"
: > "$D/all.$n"
for a in "$@"; do
  echo "$a" >> "$D/args.$n"
  if [ "$prev" = "-i" ]; then
    if [ "$a" = "pipe:" ]; then /bin/cat | /usr/bin/wc -c > "$D/in.$n.$k"; else /bin/cp "$a" "$D/in.$n.$k"; fi
    /bin/cat "$D/in.$n.$k" >> "$D/all.$n"
    k=$((k+1))
  fi
  prev=$a; out=$a
done
echo $((n+1)) > "$D/n"
case $b in
  ok) {{ printf 'MUXED:'; /bin/cat "$D/all.$n"; }} > "$out";;
  refuse) echo 'cannot do that' >&2; exit 1;;
  noisy) echo 'bad things'; exit 187;;
  partial) printf 'MUX' > "$out"; echo 'disk full' >&2; exit 1;;
  late) {{ printf 'MUXED:'; /bin/cat "$D/all.$n"; }} > "$out"; exit 255;;
  nothing) exit 0;;
  die) printf 'MUX' > "$out"; kill -9 $$;;
esac
exit 0
"""
BEHAVIOURS = ("ok", "refuse", "noisy", "partial", "late", "nothing", "die", "absent", "broken")
MIXTURES = {
    "mono": (1, 8000), "stereo": (2, 16000), "three": (3, 8000), "eight": (8, 44100), "float": (4, 8000), "flac": (2, 22050), "empty": (2, 8000),
    "one_sample": (2, 8000), "spaced name": (2, 8000), "w64": (3, 8000), "wide": (33, 11025), "long": (4, 96000), "fast": (2, 192000), "slow": (3, 50),
    "missing": None, "garbage": None, "zero": None, "folder": None, "header": None, "text.wav": None,
}
REQUESTS = ((0, 1), (1, 0), (0, 0), (1, 2), (2, 0), (7, 3), (0, 8), (-1, 0), (1, -2), (32, 31), (9, 33), (3, 10))


def cases(tier):
    deep = tier != "quick"
    for b in BEHAVIOURS:
        for m in MIXTURES:
            yield dict(k="mux", b=b, m=m, deep=deep)
    for b1, b2 in itertools.product(BEHAVIOURS[:7], repeat=2):
        yield dict(k="pair", b=(b1, b2))
    for b, m in itertools.product(("ok", "partial", "nothing", "die", "refuse"), ("mono", "three")):
        yield dict(k="steps", b=b, m=m)
    for dim in (2, 3):
        yield dict(k="options", dim=dim)
        yield dict(k="render", dim=dim)
        yield dict(k="rate", dim=dim)
    for b in ("ok", "refuse", "nothing", "partial"):
        yield dict(k="beside", b=b)
    for b in ("ok", "refuse", "die", "absent", "broken", "nothing"):
        yield dict(k="real", b=b)


def run(case, ctx):
    plt.close("all")
    try:
        globals()["_" + case["k"]](case, ctx)
    finally:
        plt.close("all")


class Lines(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.out = []

    def emit(self, r):
        self.out.append((r.levelname, r.getMessage()))

    def warned(self):
        return any(lv in ("WARNING", "ERROR") for lv, _ in self.out)


@contextlib.contextmanager
def listening():
    h = Lines()
    loggers = [logging.getLogger("torchrir"), LOG]
    old = [lg.level for lg in loggers]
    for lg in loggers:
        lg.addHandler(h)
        lg.setLevel(logging.DEBUG)
    try:
        yield h
    finally:
        for lg, lv in zip(loggers, old):
            lg.removeHandler(h)
            lg.setLevel(lv)


class Encoder:
    """A stand-in ffmpeg on PATH."""

    def __init__(self, root: Path, behaviours):
        self.d = root / "enc"
        (self.d / "bin").mkdir(parents=True)
        (self.d / "n").write_text("0\n")
        (self.d / "b").write_text("".join(b + "\n" for b in behaviours))
        exe = self.d / "bin" / "ffmpeg"
        if behaviours[0] == "broken":
            exe.write_text("#!/no/such/interpreter\n")
        elif behaviours[0] != "absent":
            exe.write_text(FAKE.format(d=self.d))
        if exe.exists():
            exe.chmod(0o755)

    @contextlib.contextmanager
    def on_path(self):
        with mock.patch.dict(os.environ, {"PATH": str(self.d / "bin")}):
            yield self

    def calls(self):
        out = []
        for i in range(int((self.d / "n").read_text())):
            args = (self.d / f"args.{i}").read_text().splitlines()
            ins = sorted(self.d.glob(f"in.{i}.*"))
            out.append((args, ins, (self.d / f"all.{i}").read_bytes()))
        return out


def mixture(root: Path, kind):
    """(path, samples or None, rate)"""
    spec = MIXTURES[kind]
    p = root / "src" / {"flac": "mixture.flac", "w64": "mix.w64", "spaced name": "the mixture of it.wav", "text.wav": "text.wav"}.get(kind, "mixture.wav")
    p.parent.mkdir()
    if spec is None:
        if kind == "garbage":
            p.write_bytes(bytes(range(256)) * 4)
        elif kind == "zero":
            p.write_bytes(b"")
        elif kind == "folder":
            p.mkdir()
        elif kind == "header":
            p.write_bytes(b"RIFF\x24\x00\x00\x00WAVEfmt ")
        elif kind == "text.wav":
            p.write_text("not audio at all\n" * 20)
        return p, None, 0
    ch, fs = spec
    n = {"empty": 0, "one_sample": 1, "long": 200003, "fast": 70001}.get(kind, 60)
    x = np.stack([0.8 * np.cos(0.3 * (c + 1) * np.arange(n) + c) for c in range(ch)], axis=1).reshape(n, ch)
    sf.write(p, x, fs, subtype={"float": "FLOAT"}.get(kind))
    return p, sf.read(p, always_2d=True)[0], fs


SCENES = {}


def scene(dim=3, steps=2):
    if (dim, steps) not in SCENES:
        src = torch.tensor([[1.0, 1.5, 1.2], [2.0, 0.5, 1.0]])[:, :dim]
        mic = torch.tensor([[2.5, 2.0, 1.1]])[:, :dim]
        st = torch.stack([src + 0.2 * k for k in range(steps)])
        SCENES[dim, steps] = dict(room=torch.tensor([5.0, 4.0, 3.0][:dim]), sources=src, mics=mic, src_traj=st, mic_traj=mic.unsqueeze(0).repeat(steps, 1, 1))
    return SCENES[dim, steps]


def wanted_channels(x, req):
    if x.shape[1] == 1:
        return x[:, [0, 0]]
    a, b = req
    if min(a, b) < 0 or max(a, b) >= x.shape[1]:
        a, b = 0, 1
    return x[:, [a, b]]


def silent(frames=2):
    return b"silent video of %d frames" % frames


def judge_call(ctx, what, call, x, fs, req, frames=2):
    args, ins, blob = call
    if not ctx.check(len(ins) == 2, f"{what}: the encoder got {len(ins)} inputs"):
        return
    datas = [p.read_bytes() for p in ins]
    ctx.check(silent(frames) in datas, f"{what}: the encoder was not given the silent video")
    aud = [p for p, d in zip(ins, datas) if d != silent(frames)]
    if not ctx.check(len(aud) == 1, f"{what}: the encoder was given no separate audio"):
        return
    y, rate = sf.read(aud[0], always_2d=True)
    want = wanted_channels(x, req)
    ctx.check(rate == fs, f"{what}: audio for the encoder at {rate} Hz, mixture at {fs}")
    ctx.check(y.shape == want.shape and bool(np.all(np.abs(y - want) <= 2 / 32768)), f"{what}: audio for the encoder is not channels {req} of the mixture ({y.shape} from {x.shape})")


def judge_video(ctx, what, path, enc, b, x, asked=True, frames=2, heard=None):
    """The final file is the silent video or the complete mux of it."""
    got = path.read_bytes() if path.exists() else None
    mux = [b"MUXED:" + blob for _, _, blob in enc.calls() if silent(frames) in blob]
    ctx.check(got == silent(frames) or got in mux, lambda: f"{what}: the video is {got[:40] if got else got!r}")
    works = b == "ok" and x is not None and asked
    ctx.check((got in mux) == works or b == "late", f"{what}: {'not ' if works else ''}muxed")
    if heard is not None and asked and not works:
        ctx.check(heard.warned(), f"{what}: no warning although the audio was not added")


def _mux(case, ctx):
    b, m = case["b"], case["m"]
    for req, name in itertools.product(REQUESTS, ("room_layout_2d.mp4", "a.b c.MP4", "plain")):
        if name != "room_layout_2d.mp4" and (req != (1, 0) or not (case["deep"] or m in ("stereo", "garbage"))):
            continue
        if req != (0, 1) and (MIXTURES[m] is None or b not in ("ok", "refuse")) and req != (7, 3) and name == "room_layout_2d.mp4":
            continue
        root = ctx.dir()
        mix, x, fs = mixture(root, m)
        before = snapshot(root / "src")
        out = root / "out"
        out.mkdir()
        (out / "keep.txt").write_text("mine")
        (out / name).write_bytes(b"an older video")
        enc = Encoder(root, [b])
        what = f"encoder {b}, mixture {m}, channels {req}, {name}"
        with recording(), enc.on_path(), listening() as heard:
            exc = raises(lambda: viz.animate_scene_mp4(out_path=out / name, mixture_path=mix, audio_channels=req, **scene()), Exception)
        ctx.count()
        ctx.check(sorted(p.name for p in out.iterdir()) == sorted([name, "keep.txt"]), f"{what}: folder holds {sorted(p.name for p in out.iterdir())}")
        ctx.check((out / "keep.txt").read_text() == "mine" and snapshot(root / "src") == before, f"{what}: changed other files")
        judge_video(ctx, what, out / name, enc, b, x, heard=heard if exc is None else None)
        calls = enc.calls()
        ctx.check(exc is None or not (b == "ok" and x is not None), f"{what}: raised {exc!r}")
        ctx.check(len(calls) <= 1, f"{what}: encoder run {len(calls)} times")
        for c in calls:
            if x is not None:
                judge_call(ctx, what, c, x, fs, req)
        ctx.check(not plt.get_fignums(), f"{what}: left a figure open")
        ctx.note((b, m, req, name, len(calls), sorted({lv for lv, _ in heard.out}), type(exc).__name__))


def _pair(case, ctx):
    """The 2D and the 3D video meet different encoder behaviour."""
    for m, seq in itertools.product(("three", "garbage", "mono"), (case["b"],)):
        root = ctx.dir()
        mix, x, fs = mixture(root, m)
        out = root / "out"
        out.mkdir()
        enc = Encoder(root, list(seq))
        what = f"encoder {seq}, mixture {m}"
        with recording() as rec, enc.on_path(), listening() as heard:
            viz.save_scene_videos(out_dir=out, signal_len=16000, fs=8000, logger=LOG, mixture_path=mix, **scene())
        ctx.count()
        names = sorted(p.name for p in out.iterdir())
        ctx.check(names == ["room_layout_2d.mp4", "room_layout_3d.mp4"], f"{what}: folder holds {names}")
        ctx.check([a["frames"][0]["dim"] for a in rec.anims] == [2, 3], f"{what}: rendered {[a['frames'][0]['dim'] for a in rec.anims]}")
        for i, name in enumerate(names):
            got = (out / name).read_bytes()
            works = x is not None and seq[i] == "ok"
            ctx.check(got == silent() or got == b"MUXED:" + (enc.d / f"all.{i}").read_bytes(), f"{what}: {name} is {got[:30]!r}")
            ctx.check((got != silent()) == works or seq[i] == "late", f"{what}: {name} {'not ' if works else ''}muxed")
        for c in enc.calls():
            judge_call(ctx, what, c, x, fs, (0, 1))
        ctx.check(sum(1 for lv, t in heard.out if lv == "INFO" and t.startswith("saved")) == 2, f"{what}: logged {heard.out}")
        ctx.check(heard.warned() == (x is None or set(seq) != {"ok"}), f"{what}: warnings {heard.out}")
        ctx.check(not plt.get_fignums(), f"{what}: left a figure open")
        ctx.note((seq, m, [(out / n).read_bytes()[:5] for n in names]))


def _steps(case, ctx):
    """Every state between two file-system steps, and every file-system step of the mux failing once."""
    b, m = case["b"], case["m"]
    helper = getattr(viz.animation if hasattr(viz, "animation") else viz, "_add_stereo_audio_to_mp4", None)

    def attempt(root, steps):
        mix, x, fs = mixture(root, m)
        out = root / "out"
        out.mkdir()
        enc = Encoder(root, [b])
        video = out / "v.mp4"
        exc = None
        with enc.on_path(), listening() as heard:
            if helper is not None:
                video.write_bytes(silent())
                steps.root = out
                with steps:
                    exc = raises(lambda: helper(video_path=video, mixture_path=mix), Exception)
            else:
                with recording():
                    exc = raises(lambda: viz.animate_scene_mp4(out_path=video, mixture_path=mix, **scene()), Exception)
        return out, video, enc, x, exc, heard

    rec = Steps(Path("/nonexistent"), record=True)
    out, video, enc, x, exc, heard = attempt(ctx.dir(), rec)
    full = b"MUXED:" + enc.calls()[0][2] if enc.calls() else None
    for s in rec.states:
        ctx.count()
        got = s.get("v.mp4")
        ctx.check(got == silent() or got == full, f"encoder {b}: at some step the video is {got[:30] if got else got!r}")
        ctx.note((b, m, sorted(s)))
    total = rec.count
    if helper is None:
        return
    for err in (no_space(), PermissionError(13, "denied")):
        for i in range(total):
            st = Steps(Path("/nonexistent"), inject=i, exc=err)
            out, video, enc, x, exc, heard = attempt(ctx.dir(), st)
            ctx.count()
            what = f"encoder {b}, mixture {m}, file-system step {i} ({st.fired}) failing"
            got = video.read_bytes() if video.exists() else None
            mux = [b"MUXED:" + c[2] for c in enc.calls()]
            ctx.check(got == silent() or got in mux, f"{what}: the video is {got[:30] if got else got!r}")
            if st.fired not in ("unlink", "remove"):
                ctx.check(sorted(p.name for p in out.iterdir()) == ["v.mp4"], f"{what}: folder holds {sorted(p.name for p in out.iterdir())}")
            ctx.note((b, m, i, st.fired, got[:5] if got else None))
    # the audio for the encoder cannot be written, half of it being on disk
    real = sf.write

    def half(file, data, *a, **k):
        real(file, data[: len(data) // 2], *a, **k)
        raise sf.LibsndfileError(2) if hasattr(sf, "LibsndfileError") else RuntimeError("system error")

    for exc_kind in ("disk", "interrupt"):
        root = ctx.dir()
        mix, x, fs = mixture(root, m)
        out = root / "out"
        out.mkdir()
        video = out / "v.mp4"
        video.write_bytes(silent())
        enc = Encoder(root, [b])

        def stop(*a, **k):
            raise KeyboardInterrupt

        what = f"encoder {b}, mixture {m}, {'audio half written' if exc_kind == 'disk' else 'interrupted while encoding'}"
        with enc.on_path(), listening():
            patch = mock.patch.object(sf, "write", half) if exc_kind == "disk" else mock.patch.object(subprocess.Popen, "communicate", stop)
            with patch:
                raises(lambda: helper(video_path=video, mixture_path=mix), BaseException)
        ctx.count()
        got = video.read_bytes() if video.exists() else None
        ctx.check(got == silent() or got in [b"MUXED:" + c[2] for c in enc.calls()], f"{what}: the video is {got[:30] if got else got!r}")
        if exc_kind == "disk":
            ctx.check(sorted(p.name for p in out.iterdir()) == ["v.mp4"], f"{what}: folder holds {sorted(p.name for p in out.iterdir())}")


def _options(case, ctx):
    dim = case["dim"]
    for save3, mux, mixk, fps, steps, slen in itertools.product((True, False), (True, False), (None, "stereo", "missing"), (None, 0, 7, 29.97, -1), (1, 4), (16000, 800, 0)):
        if slen != 16000 and (fps is not None or mixk):
            continue
        root = ctx.dir()
        mix, x, fs = mixture(root, mixk) if mixk else (None, None, 0)
        out = root / "out"
        out.mkdir()
        enc = Encoder(root, ["ok", "ok"])
        what = f"export {dim}D 3d={save3} mux={mux} mixture={mixk} fps={fps} steps={steps} samples={slen}"
        ann = ["note"] if steps == 4 else None
        with recording() as rec, enc.on_path(), listening() as heard:
            got = viz.save_scene_videos(
                out_dir=out, signal_len=slen, fs=8000, logger=LOG, mp4_fps=fps, save_3d=save3, mixture_path=mix, mux_audio=mux,
                annotate_sources=steps == 4, annotation_lines=ann, **scene(dim, steps),
            )
        ctx.count()
        names = ["room_layout_2d.mp4"] + (["room_layout_3d.mp4"] if dim == 3 and save3 else [])
        have = sorted(p.name for p in out.iterdir())
        ctx.check(got is None and have == names, f"{what}: wrote {have}")
        ctx.check([t for lv, t in heard.out if lv == "INFO"] == [f"saved: {out / n}" for n in names], f"{what}: logged {heard.out}")
        ctx.check(heard.warned() == (mux and mixk == "missing"), f"{what}: logged {heard.out}")
        ctx.check(len(enc.calls()) == (len(names) if mux and x is not None else 0), f"{what}: encoder run {len(enc.calls())} times")
        for c in enc.calls():
            judge_call(ctx, what, c, x, fs, (0, 1), steps)
        rate = fps if fps and fps > 0 else steps / (slen / 8000) if slen else 6
        for a, view in zip(rec.anims, (2, 3)):
            ctx.check(a["frames"][0]["dim"] == view and len(a["frames"]) == steps, f"{what}: {a['path']} shows {a['frames'][0]['dim']}D in {len(a['frames'])} frames")
            ctx.check(float(a["fps"]) == max(1, round(rate)), f"{what}: {a['fps']} frames per second, expected {max(1, round(rate))}")
            ctx.check(bool(a["frames"][0]["labels"]) == (steps == 4) and a["frames"][0]["notes"] == (ann or []), f"{what}: labels {a['frames'][0]['labels']}, notes {a['frames'][0]['notes']}")
        for n in names:
            ctx.check(((out / n).read_bytes()[:5] == b"MUXED") == (mux and x is not None), f"{what}: {n} is {(out / n).read_bytes()[:20]!r}")
        ctx.check(not plt.get_fignums(), f"{what}: left a figure open")
        ctx.note((dim, save3, mux, mixk, fps, steps, slen, have, [a["fps"] for a in rec.anims]))


def _render(case, ctx):
    """Every step of rendering and writing the silent videos fails once; export logs it and never raises."""
    dim = case["dim"]
    for kind in (OSError(28, "No space left on device"), BrokenPipeError(32, "Broken pipe"), subprocess.CalledProcessError(1, "ffmpeg"), ValueError("x"), MemoryError()):
        at = 0
        while True:
            root = ctx.dir()
            out = root / "out"
            out.mkdir()
            hits = [0]

            def boom(*_a):
                hits[0] += 1
                if hits[0] == at + 1:
                    raise kind

            with recording(on_write=boom), listening() as heard:
                viz.save_scene_videos(out_dir=out, signal_len=16000, fs=8000, logger=LOG, **scene(dim))
            ctx.count()
            fired = hits[0] > at
            what = f"{dim}D export with step {at} raising {type(kind).__name__}"
            ctx.check(heard.warned() == fired, f"{what}: logged {heard.out}")
            ctx.check(not plt.get_fignums(), f"{what}: left a figure open")
            for lv, t in heard.out:
                if lv == "INFO" and t.startswith("saved"):
                    ctx.check((out / t.rsplit("/", 1)[-1]).read_bytes() == silent(), f"{what}: claims {t}")
            ctx.note((dim, type(kind).__name__, at, [lv for lv, _ in heard.out]))
            if not fired or at > 40:
                break
            at += 1
    for bad in (dict(room="x"), dict(src_traj=torch.zeros(3, 2)), dict(src_traj=None, mic_traj=None), dict(sources=None)):
        with recording(), listening() as heard:
            viz.save_scene_videos(out_dir=ctx.dir(), signal_len=16000, fs=8000, logger=LOG, **{**scene(dim), **bad})
        ctx.count()
        ctx.check(heard.warned() and not plt.get_fignums(), f"export with {bad}: logged {heard.out}")
    blocked = ctx.dir() / "file"
    blocked.write_text("a file, not a folder")
    with recording(), listening() as heard:
        viz.save_scene_videos(out_dir=blocked, signal_len=16000, fs=8000, logger=LOG, **scene(dim))
    ctx.check(heard.warned() and blocked.read_text().startswith("a file"), f"export below a file: logged {heard.out}")


def _rate(case, ctx):
    """The frame rate of single animations: as given, else so that the frames shown last as long as the signal."""
    dim = case["dim"]
    for kind, steps, step, (given, dur) in itertools.product(
        ("mp4", "gif"), (1, 4, 5, 12), (1, 2, 3, 20), (({}, None), (dict(duration_s=2.0), 2.0), (dict(signal_len=4000, fs=8000), 0.5), (dict(fps=9, duration_s=2.0), 2.0), (dict(fps=3), None), (dict(fps=0, duration_s=0.25), 0.25))
    ):
        fn = viz.animate_scene_mp4 if kind == "mp4" else viz.animate_scene_gif
        with recording() as rec:
            fn(out_path=ctx.dir() / f"a.{kind}", step=step, plot_2d=dim == 2, plot_3d=dim == 3, **given, **scene(dim, steps))
        ctx.count()
        frames = -(-steps // step)
        rate = given.get("fps") or (frames / dur if dur else 6.0)
        what = f"{kind} {dim}D of {steps} steps, stride {step}, {given}"
        ctx.check(len(rec.anims) == 1 and float(rec.anims[0]["fps"]) in {float(max(1, round(rate))), float(max(1, int(rate + 0.5)))}, f"{what}: {rec.anims[0]['fps']} frames per second, expected about {rate}")
        ctx.check(len(rec.anims[0]["frames"]) == frames, f"{what}: {len(rec.anims[0]['frames'])} frames instead of {frames}")
        ctx.note((kind, dim, steps, step, str(given), rec.anims[0]["fps"]))


def _beside(case, ctx):
    """Mixture and other files of the user stand in the folder of the video, under ordinary names."""
    names = ("mixture.wav", "mix.wav", "audio.wav", "room_layout_2d.wav", "room_layout.wav", "scene.wav", "tmp.wav", "temp.wav", "source_00.wav", "out.wav")
    for name, video in itertools.product(names, ("room_layout_2d.mp4", "room_layout_3d.mp4")):
        root = ctx.dir()
        mix, x, fs = mixture(root, "three")
        out = root / "out"
        out.mkdir()
        for other in names:
            sf.write(out / other, np.zeros(3), 8000)
        for other in ("tmp.mp4", "room_layout.mp4", "temp.mp4", "output.mp4", "mux.mp4"):
            (out / other).write_bytes(b"another video")
        os.replace(mix, out / name)
        before = snapshot(out)
        enc = Encoder(root, [case["b"]])
        what = f"encoder {case['b']}, mixture {name} beside {video}"
        with recording(), enc.on_path(), listening() as heard:
            raises(lambda: viz.animate_scene_mp4(out_path=out / video, mixture_path=out / name, **scene()), Exception)
        ctx.count()
        after = snapshot(out)
        after.pop(video, None)
        ctx.check(after == before, lambda: f"{what}: files beside the video changed: {sorted(k for k in {*after, *before} if after.get(k) != before.get(k))}")
        judge_video(ctx, what, out / video, enc, case["b"], x)
        for c in enc.calls():
            judge_call(ctx, what, c, x, fs, (0, 1))
        ctx.note((case["b"], name, video))


def _real(case, ctx):
    """The encoder writer of matplotlib runs the stand-in for real: rendering, encoding, then muxing."""
    b = case["b"]
    for seq, m in itertools.product([[b]] if b in ("absent", "broken") else [["ok", b]] if b == "nothing" else [[b, "ok"], ["ok", b]], ("stereo",)):
        root = ctx.dir()
        mix, x, fs = mixture(root, m)
        out = root / "out"
        out.mkdir()
        enc = Encoder(root, seq)
        what = f"end to end, encoder {seq}"
        with enc.on_path(), listening() as heard:
            viz.save_scene_videos(out_dir=out, signal_len=8000, fs=8000, logger=LOG, mixture_path=mix, save_3d=False, **scene())
        ctx.count()
        names = sorted(p.name for p in out.iterdir())
        ctx.check(set(names) <= {"room_layout_2d.mp4"}, f"{what}: folder holds {names}")
        good = seq == ["ok", "ok"]
        ctx.check(good == (not heard.warned()), f"{what}: logged {heard.out}")
        got = (out / "room_layout_2d.mp4").read_bytes() if names else b""
        if seq[0] == "ok":
            ctx.check(got.startswith(b"MUXED:MUXED:" if good else b"MUXED:") and (good or b"RIFF" not in got), f"{what}: the video is {got[:30]!r}")
            size = int((enc.d / "in.0.0").read_text())
            ctx.check(size == 2 * 1280 * 720 * 4, f"{what}: the encoder got {size} bytes instead of two HD frames")
        ctx.check(not plt.get_fignums(), f"{what}: left a figure open")
        ctx.note((b, seq, got[:14], names))
