"""P27: plots and animations draw the scene they are given."""

import itertools
import logging

import numpy as np
import torch

from mc.core import raises
from mc.vizlib import plt, recording, rnd, room_edges, snapshot

import torchrir.viz as viz
from torchrir import MicrophoneArray, Room, Source

ID = "P27"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of scenes and plot/animation options on the real plotting code; every artist of every figure and every frame is read back and compared with the scene"
NOTE = (
    "All combinations of dimension, entity counts, motion on either side, step counts, strides, label/annotation options, input representations and output helpers; figures are read back artist by artist "
    "at the moment they are written or grabbed as a frame."
)
RULE = (
    "plots: dim x sources 1..3 x mics {1,2,4} x motion^2 x steps {1,2,5} x stride {1,2,3,7} x labels x notes x input forms; animations the same with view, rate and duration; "
    "helpers: every option combination with the files, log lines and open figures after success and after each failing write. Non-trivial: distinct snapshots."
)
ASSUMPTIONS = [
    "drawing is observed as the state of the matplotlib artists when the figure is written or a frame grabbed, not as pixels (a few cases are rendered for real)",
    "positions given beside a trajectory are its first step, or elsewhere on purpose with the same entity count",
    "both trajectories of an animation have the same number of steps",
]
MOTION = ("none", "still", "moving", "mixed")
NOTES = (None, ["RT60: 0.3 s", "  fs: 8000 ", "", "x"], ["", "  "], ["v = 0.5", "w", "v = 0.5"])
FORMS = ("f32", "f64", "list", "numpy", "entity", "int", "grad")
SIZE = (6.5, 4.25, 3.0)
LOG = logging.getLogger("mc.p27")
LOG.propagate = False
LOG.setLevel(logging.DEBUG)
_root = logging.getLogger("matplotlib")
_root.setLevel(logging.ERROR)


def cases(tier):
    deep = tier != "quick"
    for dim, ns, nm in itertools.product((2, 3), (1, 2, 3), (1, 2, 4)):
        if not deep and (ns, nm) not in ((1, 1), (2, 4), (3, 2), (2, 1)):
            continue
        yield dict(k="static", dim=dim, ns=ns, nm=nm, deep=deep)
        for sm, mm in [*itertools.product(MOTION[1:], MOTION[1:]), ("loop", "still"), ("still", "loop"), ("loop", "moving")]:
            yield dict(k="dynamic", dim=dim, ns=ns, nm=nm, sm=sm, mm=mm, deep=deep)
        for sm, mm in itertools.product(MOTION, MOTION):
            if (sm, mm) != ("none", "none"):
                yield dict(k="frames", dim=dim, ns=ns, nm=nm, sm=sm, mm=mm, deep=deep)
    for dim in (2, 3):
        for sm, mm in itertools.product(MOTION, MOTION):
            if deep or sm == mm or "none" in (sm, mm):
                yield dict(k="files", dim=dim, sm=sm, mm=mm, deep=deep)
        yield dict(k="faults", dim=dim)
        yield dict(k="real", dim=dim, deep=deep)
        yield dict(k="bad", dim=dim)
        yield dict(k="odd", dim=dim)
        for kind in ("many", "long", "anim", "notes"):
            yield dict(k="large", dim=dim, kind=kind, deep=deep)
        for first in (4, 5.5):
            yield dict(k="rooms", dim=dim, first=first)


def run(case, ctx):
    plt.close("all")
    try:
        globals()["_" + case["k"]](case, ctx)
    finally:
        plt.close("all")


def pts(n, dim, seed):
    g = torch.Generator().manual_seed(seed)
    return torch.rand(n, dim, generator=g, dtype=torch.float64) * 2 + 0.25


def traj(motion, pos, steps):
    if motion == "none":
        return None
    out = []
    for k in range(steps):
        d = torch.zeros_like(pos)
        for i in range(pos.shape[0]):
            if motion == "loop" and k == steps - 1:
                continue
            if motion in ("moving", "loop") or (motion == "mixed" and i == pos.shape[0] - 1):
                for a in range(pos.shape[1]):
                    d[i, a] = 0.11 * k * (1 + i) - 0.07 * a * k * k / 3
        out.append(pos + d)
    return torch.stack(out)


def form(x, how, kind=None):
    if x is None:
        return None
    if how == "f32":
        return x.float()
    if how == "f64":
        return x.clone()
    if how == "list":
        return x.tolist()
    if how == "numpy":
        return x.numpy().copy()
    if how == "grad":
        return x.clone().requires_grad_()
    if how == "int":
        return (x * 10).round().to(torch.int64)
    if how == "entity":
        return {"src": Source, "mic": MicrophoneArray, None: lambda **k: k["positions"]}[kind](positions=x.clone())
    raise AssertionError(how)


def frozen(x):
    if torch.is_tensor(x):
        return x.detach().clone()
    if isinstance(x, np.ndarray):
        return x.copy()
    if isinstance(x, (Source, MicrophoneArray)):
        return x.positions.clone()
    import copy

    return copy.deepcopy(x)


def same(a, b):
    if isinstance(a, (Source, MicrophoneArray)):
        a = a.positions
    if torch.is_tensor(a):
        return torch.equal(a.detach(), b)
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    return a == b


def near(a, b, tol=2e-4):
    return len(a) == len(b) and all(abs(x - y) <= tol for x, y in zip(a, b))


def matches(got, want):
    """Two collections of points are the same set up to rounding."""
    got, want = list(got), list(want)
    return all(any(near(g, w) for w in want) for g in got) and all(any(near(g, w) for g in got) for w in want)


def pathset(paths):
    """Polylines that actually go somewhere, with repeated points collapsed."""
    out = []
    for p in paths:
        q = [p[0]] if len(p) else []
        for v in p[1:]:
            if not near(v, q[-1], 1e-5):
                q.append(v)
        if len(q) > 1:
            out.append(tuple(q))
    return out


def samepaths(got, want):
    got, want = pathset(got), pathset(want)
    if len(got) != len(want):
        return False
    left = list(want)
    for g in got:
        for w in left:
            if len(g) == len(w) and all(near(a, b) for a, b in zip(g, w)):
                left.remove(w)
                break
        else:
            return False
    return True


def rows(t, view):
    return [rnd(p[:view]) for p in t.tolist()]


def judge(ctx, what, s, *, view, size, src, mic, src_more=(), mic_more=(), paths, labels, notes, title, legend=True, outline=True):
    ctx.count()
    ok = ctx.check(s["dim"] == view, f"{what}: drawn in {s['dim']}D instead of {view}D")
    if not ok:
        return
    if outline:
        ctx.check(s["outline"] == room_edges(size[:view]), lambda: f"{what}: the room outline is {sorted(map(sorted, s['outline']))} for room {size[:view]}")
    for lo_hi, v in zip(s["limits"], size):
        ctx.check(near(lo_hi, (0.0, v)), f"{what}: axis limits {s['limits']} do not show the room {size[:view]}")
    for mark, pos, more, name in (("^", src, src_more, "sources"), ("o", mic, mic_more, "mics")):
        ctx.check(matches(s["marks"][mark], list(pos) + list(more)), lambda: f"{what}: {name} drawn at {sorted(s['marks'][mark])}, are at {sorted(set(pos) | set(more))}")
    ctx.check(not s["marks"]["?"], f"{what}: unknown markers {s['marks']['?']}")
    ctx.check(samepaths(s["paths"], paths), lambda: f"{what}: paths drawn {s['paths']}\n expected {paths}")
    want = {f"S{i}": [p] for i, p in enumerate(src)} if labels else {}
    ctx.check(
        set(s["labels"]) == set(want) and all(len(s["labels"][k]) == 1 and near(s["labels"][k][0], want[k][0]) for k in want),
        lambda: f"{what}: source labels {s['labels']}, expected {want}",
    )
    lines = [str(v).strip() for v in notes or [] if str(v).strip()]
    got = [ln.strip() for t in s["notes"] for ln in t.split("\n")]
    ctx.check(got == lines, f"{what}: annotation {s['notes']}, asked for {notes}")
    if title is not None:
        ctx.check(s["title"] == title, f"{what}: title {s['title']!r}, expected {title!r}")
    ctx.check((s["legend"] == ["mics", "sources"]) == legend, f"{what}: legend {s['legend']}")
    ctx.note((what.split(":")[0], sorted(s["labels"]), len(s["paths"]), s["title"], sorted(s["marks"]["^"]), sorted(s["marks"]["o"]), s["notes"]))


def _static(case, ctx):
    dim, ns, nm = case["dim"], case["ns"], case["nm"]
    src, mic = pts(ns, dim, ns), pts(nm, dim, 10 + nm)
    n = 0
    for how, annotate, notes, title, own in itertools.product(FORMS, (True, False), NOTES, (None, "T"), (False, True)):
        n += 1
        if own and (how != "f32" or notes is None):
            continue
        if not case["deep"] and how not in ("f32", "entity") and n % 5:
            continue
        room = {"f32": torch.tensor(SIZE[:dim]), "list": list(SIZE[:dim]), "numpy": np.array(SIZE[:dim]), "entity": Room.shoebox(size=list(SIZE[:dim]), fs=8000, beta=[0.5] * (2 * dim))}.get(how, torch.tensor(SIZE[:dim], dtype=torch.float64))
        s_in, m_in = form(src, how, "src"), form(mic, how, "mic")
        k = 10 if how == "int" else 1
        want_s = rows((src * 10).round() if k == 10 else src, dim)
        want_m = rows((mic * 10).round() if k == 10 else mic, dim)
        keep = frozen(s_in), frozen(m_in)
        kw = {}
        if own:
            fig = plt.figure()
            kw["ax"] = fig.add_subplot(122, **({"projection": "3d"} if dim == 3 else {}))
        if title:
            kw["title"] = title
        with recording() as rec:
            ax = viz.plot_scene_static(room=room, sources=s_in, mics=m_in, annotate_sources=annotate, annotation_lines=notes, **kw)
        what = f"static plot {dim}D {how} labels={annotate} notes={notes} own_axes={own}"
        ctx.check(not own or ax is kw["ax"], f"{what}: did not draw into the given axes")
        ctx.check(len(plt.get_fignums()) == 1 and rec.shows == 0, f"{what}: {len(plt.get_fignums())} figures, {rec.shows} windows shown")
        judge(ctx, what, snapshot(ax), view=dim, size=SIZE, src=want_s, mic=want_m, paths=[], labels=annotate, notes=notes, title=title or "")
        ctx.check(same(s_in, keep[0]) and same(m_in, keep[1]), f"{what}: changed its inputs")
        plt.close("all")
    if ns == 1 and nm == 1:
        with recording() as rec:
            ax = viz.plot_scene_static(room=list(SIZE[:dim]), sources=src[0], mics=mic[0].tolist(), show=True)
        ctx.check(rec.shows == 1, f"show=True opened {rec.shows} windows")
        judge(ctx, f"static plot {dim}D single vectors", snapshot(ax), view=dim, size=SIZE, src=rows(src, dim), mic=rows(mic, dim), paths=[], labels=True, notes=None, title="")


def expect_dynamic(src_t, mic_t, src_pos, mic_pos, step, view):
    """(source points, extra, mic points, extra, paths) of a trajectory plot."""
    out, paths = [], []
    for t, pos in ((src_t, src_pos), (mic_t, mic_pos)):
        p = t[0] if pos is None else pos
        more = []
        if bool((t - p).norm(dim=-1).gt(1e-6).any()):
            more = rows(t[0], view)
            paths += [rows(t[::step, i], view) for i in range(t.shape[1])]
        out += [rows(p, view), more]
    return (*out, paths)


def _dynamic(case, ctx):
    dim, ns, nm = case["dim"], case["ns"], case["nm"]
    src, mic = pts(ns, dim, ns), pts(nm, dim, 10 + nm)
    n = 0
    for steps, step, how, pos, annotate in itertools.product((1, 2, 5), (1, 2, 3, 7), FORMS, ("no", "start", "elsewhere"), (True, False)):
        n += 1
        if not case["deep"] and (n * 11 + ns + nm) % 23 and (how != "f32" or not annotate or pos != "start"):
            continue
        st, mt = traj(case["sm"], src, steps), traj(case["mm"], mic, steps)
        off = 0.3 if pos == "elsewhere" else 0.0
        sp, mp = (None, None) if pos == "no" else (src + off, mic - off)
        notes = NOTES[n % 4]
        args = dict(src_traj=form(st, how), mic_traj=form(mt, how), src_pos=form(sp, how, "src"), mic_pos=form(mp, how, "mic"))
        keep = {k: frozen(v) for k, v in args.items()}
        if how == "int":
            st, mt, sp, mp = [None if v is None else (v * 10).round() for v in (st, mt, sp, mp)]
        with recording() as rec:
            ax = viz.plot_scene_dynamic(room=list(SIZE[:dim]), step=step, annotate_sources=annotate, annotation_lines=notes, title="dyn", **args)
        what = f"dynamic plot {dim}D src={case['sm']} mic={case['mm']} steps={steps} stride={step} {how} positions={pos}"
        s_at, s_more, m_at, m_more, paths = expect_dynamic(st, mt, sp, mp, step, dim)
        snap = snapshot(ax)
        judge(ctx, what, snap, view=dim, size=SIZE, src=s_at, src_more=s_more, mic=m_at, mic_more=m_more, paths=paths, labels=annotate, notes=notes, title="dyn")
        ctx.check(len({c for v in snap["colors"]["o"].values() for c in v}) <= 1, f"{what}: microphones drawn in several colours")
        ctx.check(all(v is None or same(v, keep[k]) for k, v in args.items()), f"{what}: changed its inputs")
        ctx.check(rec.shows == 0 and len(plt.get_fignums()) == 1, f"{what}: {len(plt.get_fignums())} figures left, {rec.shows} shown")
        plt.close("all")


def time_title(idx, steps, dur):
    return "" if dur is None or steps < 2 else f"t = {idx / (steps - 1) * dur:.2f} s"


def rate(fps, frames, dur):
    if fps is None or fps <= 0:
        fps = frames / dur if dur else 6.0
    return {max(1, int(round(fps))), max(1, int(fps + 0.5))} if abs(fps % 1 - 0.5) < 1e-9 else {max(1, int(round(fps)))}


def judge_anim(ctx, what, a, *, view, src_t, mic_t, step, annotate, notes, dur, fps):
    steps = src_t.shape[0]
    frames = max(1, -(-steps // step))
    ctx.check(len(a["frames"]) == frames and a["done"], f"{what}: {len(a['frames'])} frames written instead of {frames}")
    ctx.check(round(float(a["fps"]), 6) in {float(r) for r in rate(fps, frames, dur)}, f"{what}: {a['fps']} frames per second, expected {rate(fps, frames, dur)}")
    for k, s in enumerate(a["frames"][:frames]):
        idx = min(k * step, steps - 1)
        paths = [rows(t[: idx + 1, i], view) for t in (src_t, mic_t) for i in range(t.shape[1])]
        judge(
            ctx, f"{what}: frame {k}", s, view=view, size=SIZE, src=rows(src_t[idx], view), mic=rows(mic_t[idx], view), paths=paths,
            labels=annotate, notes=notes, title=time_title(idx, steps, dur), outline=False,
        )


def _frames(case, ctx):
    dim, ns, nm = case["dim"], case["ns"], case["nm"]
    src, mic = pts(ns, dim, ns), pts(nm, dim, 10 + nm)
    d = ctx.dir()
    timing = ({}, dict(duration_s=2.5), dict(signal_len=12000, fs=8000), dict(fps=4), dict(fps=0, duration_s=0.75), dict(signal_len=100, fs=8000.0, duration_s=5.0), dict(fps=2.4, duration_s=1.0))
    n = 0
    for steps, step, kind, view3, annotate in itertools.product((1, 2, 4, 5), (1, 2, 3, 9), ("gif", "mp4"), (False, True), (True, False)):
        n += 1
        if not case["deep"] and (n * 7 + ns + nm) % 5:
            continue
        view = 3 if view3 and dim == 3 else 2
        how = FORMS[n % 6] if FORMS[n % 6] != "int" else "grad"
        t_kw = timing[(n // 2) % len(timing)]
        notes = NOTES[n % 4]
        st, mt = traj(case["sm"], src, steps), traj(case["mm"], mic, steps)
        args = dict(sources=form(src, how, "src"), mics=form(mic, how, "mic"), src_traj=form(st, how), mic_traj=form(mt, how))
        keep = {k: frozen(v) for k, v in args.items()}
        out = d / f"sub{n}" / f"anim.{kind}"
        fn = viz.animate_scene_gif if kind == "gif" else viz.animate_scene_mp4
        what = f"{kind} {dim}D view={view} src={case['sm']} mic={case['mm']} steps={steps} stride={step} {how} {t_kw}"
        with recording() as rec:
            got = fn(out_path=out, room=torch.tensor(SIZE[:dim]), step=step, plot_2d=not view3, plot_3d=view3, annotate_sources=annotate, annotation_lines=notes, **args, **t_kw)
        ctx.check(str(got) == str(out) and out.exists(), f"{what}: returned {got}")
        ctx.check(sorted(p.name for p in out.parent.iterdir()) == [out.name], f"{what}: wrote {sorted(p.name for p in out.parent.iterdir())}")
        ctx.check(not plt.get_fignums(), f"{what}: left figures open")
        ctx.check(all(v is None or same(v, keep[k]) for k, v in args.items()), f"{what}: changed its inputs")
        if ctx.check(len(rec.anims) == 1, f"{what}: {len(rec.anims)} animations written"):
            full_s = src.unsqueeze(0).repeat(steps, 1, 1) if st is None else st
            full_m = mic.unsqueeze(0).repeat(steps, 1, 1) if mt is None else mt
            dur = t_kw.get("duration_s")
            if dur is None and "signal_len" in t_kw:
                dur = t_kw["signal_len"] / t_kw["fs"]
            judge_anim(ctx, what, rec.anims[0], view=view, src_t=full_s, mic_t=full_m, step=step, annotate=annotate, notes=notes, dur=dur, fps=t_kw.get("fps"))


class Lines(logging.Handler):
    def __init__(self):
        super().__init__()
        self.out = []

    def emit(self, r):
        self.out.append((r.levelname, r.getMessage()))


def logged(fn):
    h = Lines()
    LOG.addHandler(h)
    try:
        fn()
    finally:
        LOG.removeHandler(h)
    return h.out


def scene(case, steps=4):
    dim = case["dim"]
    src, mic = pts(2, dim, 3), pts(2, dim, 4)
    return src, mic, traj(case.get("sm", "moving"), src, steps), traj(case.get("mm", "none"), mic, steps)


def _files(case, ctx):
    dim = case["dim"]
    src, mic, st, mt = scene(case)
    moving = st is not None or mt is not None
    fs_, fm_ = (src.unsqueeze(0).repeat(4, 1, 1) if st is None else st), (mic.unsqueeze(0).repeat(4, 1, 1) if mt is None else mt)
    base = dict(room=torch.tensor(SIZE[:dim]), sources=Source(positions=src), mics=mic)
    n = 0
    for annotate, notes, p2, p3 in itertools.product((True, False), NOTES[:2], (True, False), (True, False)):
        for show, step, how in itertools.product((False, True), (1, 3), ("render", "plots", "layout")):
            if how != "render" and step != 1:
                continue
            n += 1
            if not case["deep"] and (annotate != (notes is None) or show != (n % 3 == 0)):
                continue
            d = ctx.dir() / "deep" / "er"
            kw = dict(base, out_dir=d, src_traj=st, mic_traj=mt, show=show, annotate_sources=annotate, annotation_lines=notes)
            dims = [v for v, on_ in ((2, p2), (3, p3)) if on_ and v <= dim]
            what = f"{how} {dim}D src={case['sm']} mic={case['mm']} 2d={p2} 3d={p3} show={show} stride={step}"
            log = []
            with recording() as rec:
                if how == "render":
                    got = viz.render_scene_plots(prefix="pre", step=step, plot_2d=p2, plot_3d=p3, **kw)
                elif how == "plots":
                    log = logged(lambda: viz.save_scene_plots(prefix="pre", plot_2d=p2, plot_3d=p3, logger=LOG, **kw))
                else:
                    log = logged(lambda: viz.save_scene_layout_images(save_2d=p2, save_3d=p3, logger=LOG, **kw))
            stat = [] if how == "layout" else [f"pre_static_{v}d.png" for v in dims]
            dyn = [f"room_layout_{v}d.png" for v in dims] if how == "layout" else [f"pre_dynamic_{v}d.png" for v in dims] if moving else []
            files = sorted(p.name for p in d.iterdir()) if d.exists() else []
            ctx.check(files == sorted(stat + dyn), f"{what}: wrote {files}, expected {sorted(stat + dyn)}")
            ctx.check(not plt.get_fignums(), f"{what}: left {len(plt.get_fignums())} figures open")
            ctx.check(rec.shows == (len(files) if show else 0), f"{what}: {rec.shows} windows shown for {len(files)} figures")
            if how == "render":
                ctx.check(
                    [str(p) for p in got[0]] == [str(d / v) for v in stat] and [str(p) for p in got[1]] == [str(d / v) for v in dyn],
                    f"{what}: returned {got}",
                )
            else:
                ctx.check(sorted(log) == sorted(("INFO", f"saved: {d / v}") for v in stat + dyn), f"{what}: logged {log}")
            for path, snaps in rec.saved:
                name = path.rsplit("/", 1)[-1]
                view = 3 if name.endswith("3d.png") else 2
                if not ctx.check(len(snaps) == 1, f"{what}: {name} has {len(snaps)} axes"):
                    continue
                s_at, s_more, m_at, m_more, paths = expect_dynamic(fs_[..., :view], fm_[..., :view], src[:, :view], mic[:, :view], step, view)
                if "static" in name or not moving:
                    s_more = m_more = paths = []
                judge(ctx, f"{what}: {name}", snaps[0], view=view, size=SIZE, src=s_at, src_more=s_more, mic=m_at, mic_more=m_more, paths=paths, labels=annotate, notes=notes, title=None)
    if moving:
        for annotate, notes, fps in itertools.product((True, False), NOTES[:2], (0, 5, -1)):
            d = ctx.dir()
            what = f"gifs {dim}D src={case['sm']} mic={case['mm']} fps={fps}"
            with recording() as rec:
                log = logged(lambda: viz.save_scene_gifs(out_dir=d, src_traj=st, mic_traj=mt, prefix="pre", signal_len=16000, fs=8000, gif_fps=fps, logger=LOG, annotate_sources=annotate, annotation_lines=notes, **base))
            want = ["pre.gif"] + (["pre_3d.gif"] if dim == 3 else [])
            ctx.check(sorted(p.name for p in d.iterdir()) == sorted(want), f"{what}: wrote {sorted(p.name for p in d.iterdir())}")
            ctx.check(log == [("INFO", f"saved: {d / v}") for v in want], f"{what}: logged {log}")
            ctx.check(not plt.get_fignums(), f"{what}: left figures open")
            for a, view in zip(rec.anims, (2, 3)):
                judge_anim(ctx, f"{what}: {a['path'].rsplit('/', 1)[-1]}", a, view=view, src_t=fs_, mic_t=fm_, step=1, annotate=annotate, notes=notes, dur=2.0, fps=fps)


def _faults(case, ctx):
    """Every write fails once: the saving helpers log it, raise nothing and leave no figure open."""
    dim = case["dim"]
    src, mic, st, mt = scene(dict(case, sm="moving", mm="mixed"))
    base = dict(room=torch.tensor(SIZE[:dim]), sources=src, mics=mic, src_traj=st, mic_traj=mt)

    def helpers(d):
        yield "plots", lambda: viz.save_scene_plots(out_dir=d, prefix="p", show=False, logger=LOG, **base)
        yield "layout", lambda: viz.save_scene_layout_images(out_dir=d, logger=LOG, **base)
        yield "gifs", lambda: viz.save_scene_gifs(out_dir=d, prefix="p", signal_len=16000, fs=8000, gif_fps=0, logger=LOG, **base)

    for name, _ in helpers(None):
        at = 0
        while True:
            d = ctx.dir()
            fn = dict(helpers(d))[name]
            hits = [0]

            def boom(*a):
                hits[0] += 1
                if hits[0] == at + 1:
                    raise OSError(28, "No space left on device")

            with recording(on_print=boom, on_write=boom):
                log = logged(fn)
            ctx.count()
            fired = hits[0] > at
            what = f"{name} {dim}D with write {at} failing"
            ctx.check(not plt.get_fignums(), f"{what}: left {len(plt.get_fignums())} figures open")
            ctx.check(any(lv == "WARNING" for lv, _ in log) == fired, f"{what}: logged {log}")
            ctx.note((name, at, tuple(lv for lv, _ in log)))
            for lv, msg in log:
                if lv == "INFO":
                    ctx.check((d / msg.rsplit("/", 1)[-1]).exists(), f"{what}: claims to have saved {msg}")
            if not fired or at > 60:
                break
            at += 1
    for name, bad in (("plots", dict(src_traj=[[1.0, 2.0]])), ("layout", dict(mic_traj=torch.zeros(2, 2))), ("gifs", dict(room="nothing"))):
        d = ctx.dir()
        base.update(bad)
        log = logged(dict(helpers(d))[name])
        ctx.count()
        ctx.check([lv for lv, _ in log][-1:] == ["WARNING"], f"{name} with {bad}: logged {log}")
        ctx.check(not plt.get_fignums(), f"{name} with {bad}: left figures open")


def _real(case, ctx):
    """Rendered and encoded for real: the files decode to the right number of images."""
    from PIL import Image

    dim = case["dim"]
    for steps, step, annotate in ((1, 1, True), (3, 1, True), (5, 2, False))[: 3 if case["deep"] else 2]:
        src, mic, st, mt = scene(dict(case, sm="moving", mm="none"), steps)
        d = ctx.dir()
        for v3 in (False, True):
            if v3 and dim == 2:
                continue
            out = viz.animate_scene_gif(out_path=d / f"a{v3}.gif", room=list(SIZE[:dim]), sources=src, mics=mic, src_traj=st, step=step, fps=5, duration_s=3.0, plot_2d=not v3, plot_3d=v3, annotate_sources=annotate)
            ctx.count()
            with Image.open(out) as im:
                total = 0
                for k in range(im.n_frames):
                    im.seek(k)
                    total += im.info.get("duration", 0)
            want = 200 * max(1, -(-steps // step))
            ctx.check(steps == 1 or total == want, f"gif of {steps} steps stride {step}: lasts {total} ms, expected {want}")
            ctx.note((dim, steps, step, v3, total))
        r = viz.render_scene_plots(out_dir=d, room=list(SIZE[:dim]), sources=src, mics=mic, src_traj=st)
        for p in [*r[0], *r[1]]:
            with Image.open(p) as im:
                im.load()
                ctx.check(im.format == "PNG" and min(im.size) > 100, f"{p.name} is a {im.format} of {im.size}")
        ctx.check(not plt.get_fignums(), "figures left open")


def _bad(case, ctx):
    dim = case["dim"]
    src, mic, st, mt = scene(dict(case, sm="moving", mm="moving"))
    d = ctx.dir()
    base = dict(room=list(SIZE[:dim]), sources=src, mics=mic)
    for what, kw in (
        ("no view", dict(src_traj=st, plot_2d=False, plot_3d=False)),
        ("no trajectory", dict()),
        ("flat source trajectory", dict(src_traj=st[:, 0])),
        ("flat mic trajectory", dict(mic_traj=mt[:, 0])),
    ):
        for name, fn in (("gif", viz.animate_scene_gif), ("mp4", viz.animate_scene_mp4)):
            with recording():
                exc = raises(lambda: fn(out_path=d / f"x.{name}", **base, **kw), ValueError)
            ctx.count()
            ctx.check(exc is not None, f"{name}: {what} accepted")
            ctx.check(not plt.get_fignums() and not (d / f"x.{name}").exists(), f"{name}: {what} left something behind")
            ctx.note((name, what))
    for kw in (dict(src_traj=st[:, 0], mic_traj=mt), dict(src_traj=st, mic_traj=mt[0])):
        ctx.check(raises(lambda: viz.plot_scene_dynamic(room=list(SIZE[:dim]), **kw), ValueError), "a trajectory that is not (T, N, dim) was plotted")
        ctx.check(not plt.get_fignums(), "a refused trajectory leaves a figure open")


def _odd(case, ctx):
    """One point given as a bare vector, positions whose count differs from the trajectory, figures shown on request."""
    dim = case["dim"]
    size = list(SIZE[:dim])
    src, mic = pts(3, dim, 5), pts(2, dim, 15)
    for how, show in itertools.product(("f32", "f64", "list", "numpy", "int"), (False, True)):
        one, two = src[1] * 1.0, mic[0] * 1.0
        a, b = form(one, how), form(two, how)
        if how == "int":
            one, two = (one * 10).round(), (two * 10).round()
        for which in ("both", "src", "mic"):
            s_in, s_at = (a, one[None]) if which != "mic" else (src, src)
            m_in, m_at = (b, two[None]) if which != "src" else (mic, mic)
            what = f"plot {dim}D, bare vector for {which}, {how}, show={show}"
            with recording() as rec:
                ax = viz.plot_scene_static(room=size, sources=s_in, mics=m_in, title="t", show=show)
            judge(ctx, what, snapshot(ax), view=dim, size=SIZE, src=s_at, mic=m_at, paths=[], labels=True, notes=None, title="t")
            ctx.check(rec.shows == int(show), f"{what}: shown {rec.shows} times")
            plt.close("all")
    for (sm, mm), steps, step, show in itertools.product((("moving", "still"), ("still", "moving"), ("mixed", "moving")), (1, 2, 5), (1, 2), (False, True)):
        st, mt = traj(sm, src, steps), traj(mm, mic, steps)
        for label, sp, mp in (("fewer sources", src[:2], mic), ("more mics", src, pts(4, dim, 3)), ("one vector each", src[0], mic[0]), ("no sources", src[:0], mic)):
            what = f"dynamic plot {dim}D src={sm} mic={mm} steps={steps} stride={step} {label} show={show}"
            with recording() as rec:
                ax = viz.plot_scene_dynamic(room=size, src_traj=st, mic_traj=mt, src_pos=sp, mic_pos=mp, step=step, title="dyn", show=show, annotate_sources=False)
            # positions of another count are not this trajectory's: its first step is drawn
            s_at, s_more, m_at, m_more, paths = expect_dynamic(st, mt, None, None, step, dim)
            judge(ctx, what, snapshot(ax), view=dim, size=SIZE, src=s_at, src_more=s_more, mic=m_at, mic_more=m_more, paths=paths, labels=False, notes=None, title="dyn")
            ctx.check(rec.shows == int(show) and len(plt.get_fignums()) == 1, f"{what}: shown {rec.shows} times")
            plt.close("all")


def _large(case, ctx):
    """Dozens of entities, hundreds of steps, strides beyond the end and long annotations."""
    dim, kind = case["dim"], case["kind"]

    def both(what, src, mic, st, mt, step=1, annotate=True, notes=None):
        with recording():
            ax = viz.plot_scene_dynamic(room=list(SIZE[:dim]), step=step, annotate_sources=annotate, annotation_lines=notes, src_traj=st, mic_traj=mt, src_pos=src, mic_pos=mic, title="big")
        s_at, s_more, m_at, m_more, paths = expect_dynamic(st, mt, src, mic, step, dim)
        judge(ctx, f"dynamic plot {what}", snapshot(ax), view=dim, size=SIZE, src=s_at, src_more=s_more, mic=m_at, mic_more=m_more, paths=paths, labels=annotate, notes=notes, title="big")
        plt.close("all")

    def film(what, src, mic, st, mt, step, annotate=True, notes=None, dur=60.0, views=(2, 3)):
        for view in views[: dim - 1]:
            d = ctx.dir()
            with recording() as rec:
                viz.animate_scene_gif(
                    out_path=d / "a.gif", room=list(SIZE[:dim]), sources=src, mics=mic, src_traj=st, mic_traj=mt, step=step, plot_2d=view == 2, plot_3d=view == 3,
                    annotate_sources=annotate, annotation_lines=notes, duration_s=dur,
                )
            steps = st.shape[0]
            full = mic.unsqueeze(0).repeat(steps, 1, 1) if mt is None else mt
            judge_anim(ctx, f"gif {what} view {view}", rec.anims[0], view=view, src_t=st, mic_t=full, step=step, annotate=annotate, notes=notes, dur=dur, fps=None)

    if kind == "many":
        for ns, nm in ((10, 1), (11, 9), (12, 16), (13, 33), (26, 3), (60, 2), (101, 64)):
            src, mic = pts(ns, dim, ns), pts(nm, dim, 10 + nm)
            with recording():
                ax = viz.plot_scene_static(room=list(SIZE[:dim]), sources=src, mics=mic)
            judge(ctx, f"static plot {dim}D of {ns} sources and {nm} mics", snapshot(ax), view=dim, size=SIZE, src=rows(src, dim), mic=rows(mic, dim), paths=[], labels=True, notes=None, title="")
            plt.close("all")
            for sm, mm in (("moving", "still"), ("mixed", "moving"), ("still", "mixed")):
                both(f"{dim}D of {ns} sources {sm} and {nm} mics {mm}", src, mic, traj(sm, src, 3), traj(mm, mic, 3))
            if ns <= 26:
                film(f"{dim}D of {ns} sources and {nm} mics", src, mic, traj("mixed", src, 3), traj("none", mic, 3), 1)
    elif kind == "long":
        src, mic = pts(2, dim, 3), pts(2, dim, 4)
        for steps, strides in ((17, (16, 17, 18)), (33, (1, 31, 32, 33)), (100, (1, 7, 99, 100)), (300, (1, 4, 64, 299, 300, 10000)), (1025, (1, 1024))):
            for step, (sm, mm) in itertools.product(strides, (("moving", "still"), ("mixed", "moving"))):
                scale = 4.0 / steps / steps
                st, mt = [x if x is None else x[:1] + (x - x[:1]) * scale * 9 for x in (traj(sm, src, steps), traj(mm, mic, steps))]
                both(f"{dim}D of {steps} steps src={sm} mic={mm} stride={step}", src, mic, st, mt, step)
    elif kind == "anim":
        src, mic = pts(2, dim, 3), pts(1, dim, 4)
        for steps, strides in ((12, (1, 5, 11, 12)), (40, (1, 13, 39, 40, 41)), (130, (3, 128, 129, 10**6))) if not case["deep"] else ((12, range(1, 14)), (40, range(1, 42)), (130, (1, 2, 3, 128, 129, 10**6))):
            for step in strides:
                st = traj("moving", src, steps) * 0.2
                film(f"{dim}D of {steps} steps stride={step}", src, mic, st, None, step, dur=0.004 if step == 5 else 1234.5, views=(2,) if steps > 40 else (2, 3))
    else:
        src, mic = pts(2, dim, 3), pts(2, dim, 4)
        for notes in ([f"line {i}" for i in range(13)], ["x" * 300], ["same"] * 5, [" a  b "], ["0"], ["tab\tin"], ["a: b: c", "d, e; f"], ["\u00e9\u65e5"], [f"{i}" for i in range(64)], ["first", "", " ", "last"]):
            for annotate in (True, False):
                both(f"{dim}D with notes {notes[:3]}", src, mic, traj("moving", src, 2), mic.unsqueeze(0).repeat(2, 1, 1), notes=notes, annotate=annotate)
                film(f"{dim}D with notes {notes[:3]}", src, mic, traj("moving", src, 2), None, 1, notes=notes, annotate=annotate)


def _rooms(case, ctx):
    """Rooms with equal, whole-number or small sides, in every form, through every helper."""
    dim = case["dim"]
    sizes = list(itertools.product((4, 5.5) if dim == 3 else (4, 5.5, 0.75), repeat=dim))
    more = [(4, 5.5, 0.75), (5.5, 0.75, 4), (4, 1.5, 1.5), (5.5, 12, 20)] if dim == 3 else [(4, 0.1), (5.5, 40)]
    for size in sizes + more:
        if size[0] != case["first"]:
            continue
        src = torch.tensor([[0.2, 0.3, 0.4][:dim], [0.5, 0.1, 0.6][:dim]])
        mic = torch.tensor([[0.6, 0.6, 0.2][:dim]])
        st = torch.stack([src, src + 0.05])
        for room in (list(size), torch.tensor(size), np.array(size), tuple(size))[: 1 if size in more else 4]:
            base = dict(room=room, sources=src, mics=mic, src_traj=st, mic_traj=mic.unsqueeze(0).repeat(2, 1, 1), logger=LOG)
            d = ctx.dir()
            what = f"room {room!r}"
            with recording() as rec:
                logs = logged(lambda: viz.save_scene_gifs(out_dir=d, prefix="s", signal_len=100, fs=100, gif_fps=2, **base))
                logs += logged(lambda: viz.save_scene_plots(out_dir=d, prefix="s", show=False, **base))
                logs += logged(lambda: viz.save_scene_layout_images(out_dir=d, **base))
            ctx.count()
            names = [f"s{t}.gif" for t in ("", "_3d")[: dim - 1]] + [f"{p}_{v}d.png" for p in ("s_static", "s_dynamic", "room_layout") for v in (2, 3)[: dim - 1]]
            have = sorted(p.name for p in d.iterdir())
            ctx.check(have == sorted(names), f"{what}: wrote {have}, expected {sorted(names)} (logged {[t for lv, t in logs if lv != 'INFO']})")
            for path, snaps in rec.saved + [(a["path"], a["frames"]) for a in rec.anims]:
                view = 3 if path.endswith(("3d.png", "3d.gif")) else 2
                short = path.rsplit("/", 1)[-1]
                ctx.check(short.endswith(".gif") or snaps[0]["outline"] == room_edges(size[:view]), lambda: f"{what}: {short} outline {snaps[0]['outline']}")
                for s in snaps:
                    ctx.check(len(s["limits"]) == view and all(near(lh, (0.0, v)) for lh, v in zip(s["limits"], size)), lambda: f"{what}: {short} axis limits {s['limits']} do not show the room")
            ctx.note((size, type(room).__name__, have))
