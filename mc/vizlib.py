"""Reads back what a matplotlib figure shows: outline, markers by shape, paths, texts, limits."""

import contextlib
import itertools
from unittest import mock

import matplotlib

matplotlib.use("Agg")
import matplotlib.animation as manim
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.colors import to_hex
from matplotlib.figure import Figure
from matplotlib.markers import MarkerStyle
from matplotlib.patches import Rectangle

DIG = 4


def rnd(p):
    return tuple(round(float(v), DIG) + 0.0 for v in p)


def _shape(path):
    for name in ("^", "o"):
        ms = MarkerStyle(name)
        ref = ms.get_path().transformed(ms.get_transform())
        if ref.vertices.shape == path.vertices.shape and np.allclose(ref.vertices, path.vertices, atol=1e-6):
            return name
    return "?"


def line_points(line, dim):
    if dim == 3 and hasattr(line, "get_data_3d"):
        return np.column_stack([np.asarray(v, float).ravel() for v in line.get_data_3d()])
    return np.column_stack([np.asarray(v, float).ravel() for v in line.get_data()])


def segments(points):
    return {frozenset((rnd(a), rnd(b))) for a, b in zip(points, points[1:]) if rnd(a) != rnd(b)}


def room_edges(size):
    size = [float(v) for v in size]
    out = set()
    for corner in itertools.product((0, 1), repeat=len(size)):
        for ax in range(len(size)):
            if corner[ax] == 0:
                a = [c * s for c, s in zip(corner, size)]
                b = list(a)
                b[ax] = size[ax]
                out.add(frozenset((rnd(a), rnd(b))))
    return out


def snapshot(ax):
    dim = 3 if ax.name == "3d" else 2
    marks = {"^": set(), "o": set(), "?": set()}
    colors = {"^": {}, "o": {}, "?": {}}
    for c in ax.collections:
        if not c.get_visible():
            continue
        if dim == 3:
            off = np.column_stack([np.ma.getdata(np.asarray(v, float)).ravel() for v in c._offsets3d])
        else:
            off = np.asarray(np.ma.getdata(c.get_offsets()), float).reshape(-1, 2)
        shp = _shape(c.get_paths()[0])
        fc = c.get_facecolor()
        for i, p in enumerate(off):
            marks[shp].add(rnd(p))
            if len(fc):
                colors[shp].setdefault(rnd(p), set()).add(to_hex(fc[i % len(fc)]))
    paths, outline, pathcol = [], set(), {}
    for ln in ax.lines:
        if not ln.get_visible():
            continue
        pts = line_points(ln, dim)
        col = to_hex(ln.get_color())
        if col == "#000000":
            outline |= segments(pts)
            continue
        if ln.get_marker() in ("^", "o") and len(pts):
            every = ln.get_markevery()
            idx = every if isinstance(every, (list, tuple)) else range(0, len(pts), every or 1)
            for i in idx:
                marks[ln.get_marker()].add(rnd(pts[i]))
        run = tuple(rnd(p) for p in pts)
        if len(set(run)) > 1:
            paths.append(run)
            pathcol[run] = col
    for p in ax.patches:
        if isinstance(p, Rectangle) and p.get_visible():
            x, y = p.get_xy()
            w, h = p.get_width(), p.get_height()
            outline |= segments([(x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y)])
    labels, notes = {}, []
    for t in ax.texts:
        if not t.get_visible() or not t.get_text():
            continue
        if t.get_transform() == ax.transAxes:
            notes.append(t.get_text())
        else:
            pos = t.get_position_3d() if hasattr(t, "get_position_3d") else t.get_position()
            labels.setdefault(t.get_text(), []).append(rnd(pos))
    leg = ax.get_legend()
    lims = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if dim == 3 else [])
    return dict(
        dim=dim, marks=marks, colors=colors, paths=sorted(paths), pathcol=pathcol, outline=outline,
        labels={k: sorted(v) for k, v in labels.items()}, notes=notes, title=ax.get_title(),
        legend=sorted(t.get_text() for t in leg.get_texts()) if leg else [],
        limits=[rnd(v) for v in lims],
    )


class Recorder:
    """What was written: figures saved as images and frames of animations."""

    def __init__(self):
        self.saved = []  # (path, snapshots of axes)
        self.anims = []  # dict(path, fps, frames, writer)
        self.shows = 0


@contextlib.contextmanager
def recording(draw=False, on_print=None, on_write=None):
    """Replace rendering and encoding by reading back the artists; figures and files stay real."""
    from matplotlib.backend_bases import FigureCanvasBase
    from matplotlib.backends.backend_agg import FigureCanvasAgg

    rec = Recorder()
    real_print = FigureCanvasBase.print_figure

    def print_figure(self, filename, *a, **k):
        rec.saved.append((str(filename), [snapshot(x) for x in self.figure.axes]))
        if on_print is not None:
            on_print(str(filename))
        if draw:
            return real_print(self, filename, *a, **k)
        with open(filename, "wb") as f:
            f.write(b"image")

    def setup(self, fig, outfile, dpi=None):
        self.fig, self.outfile, self.dpi = fig, outfile, dpi or fig.dpi
        self._rec = dict(path=str(outfile), fps=self.fps, frames=[], kind=type(self).__name__, done=False)
        rec.anims.append(self._rec)
        if on_write is not None:
            on_write("setup", str(outfile))

    def grab_frame(self, **k):
        self._rec["frames"].append(snapshot(self.fig.axes[0]))
        if on_write is not None:
            on_write("frame", self._rec["path"])

    def finish(self):
        if on_write is not None:
            on_write("finish", self._rec["path"])
        self._rec["done"] = True
        with open(self._rec["path"], "wb") as f:
            f.write(b"silent video of %d frames" % len(self._rec["frames"]))

    def show(*a, **k):
        rec.shows += 1

    with contextlib.ExitStack() as st:
        st.enter_context(mock.patch.object(FigureCanvasBase, "print_figure", print_figure))
        st.enter_context(mock.patch.object(plt, "show", show))
        if not draw:
            st.enter_context(mock.patch.object(Figure, "tight_layout", lambda self, *a, **k: None))
            st.enter_context(mock.patch.object(FigureCanvasAgg, "draw", lambda self, *a, **k: None))
        for cls in {manim.PillowWriter, manim.FFMpegWriter}:
            for name, fn in (("setup", setup), ("grab_frame", grab_frame), ("finish", finish)):
                st.enter_context(mock.patch.object(cls, name, fn))
        yield rec
