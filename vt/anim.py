"""Blind animation: frames of an animated model as numpy arrays, and an independent rasteriser as oracle."""

import io
import math
import os
import shutil
import sys
import tempfile

import numpy as np
import salabim as sim
from PIL import Image
from hypothesis import strategies as st

from .core import check, equal, fail
from .drive import fresh

COLORS = {"red": (255, 0, 0), "lime": (0, 255, 0), "blue": (0, 0, 255), "yellow": (255, 255, 0), "magenta": (255, 0, 255), "cyan": (0, 255, 255), "white": (255, 255, 255), "black": (0, 0, 0)}
ANCHORS = ["nw", "n", "ne", "w", "c", "e", "sw", "s", "se"]
MARGIN = 2.0


class Scene:
    """an environment with a blind animation, that collects the frames; use as a context manager"""

    def __init__(self, width=160, height=120, x0=0, x1=None, y0=0, fps=1, speed=1, background="white", mode="yieldless", reset=0, **kw):
        self.args = dict(width=width, height=height, x0=x0, x1=x0 + width if x1 is None else x1, y0=y0, fps=fps, speed=speed, background_color=background, foreground_color="white" if background == "black" else "black")
        self.fg = self.args["foreground_color"]
        self.mode = mode
        self.reset = reset
        self.kw = kw

    def __enter__(self):
        fresh()
        sim.can_animate()
        sim.yieldless(self.mode == "yieldless")
        self.frames = []
        self.files = 0
        self.stderr, sys.stderr = sys.stderr, io.StringIO()  # salabim prints a traceback for errors in the animation
        self.dir = tempfile.mkdtemp(prefix="vt_anim_")
        self.env = sim.Environment(trace=False, blind_animation=True, **self.kw)
        self.env.animation_parameters(animate=True, video=self.dir + "/frame*.png", show_time=False, show_menu_buttons=False, modelname="", **self.args)
        if self.reset:
            self.env.reset_now(self.reset)
        Dyn.shift = self.reset
        return self

    def __exit__(self, *_):
        sys.stderr = self.stderr
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, till):
        self.env.run(till=till + self.reset)
        self.collect()

    def collect(self):
        """reads the frames that were added to the video; frame n is at n * speed / fps"""
        for name in sorted(n for n in os.listdir(self.dir) if n.startswith("frame"))[self.files :]:
            with Image.open(os.path.join(self.dir, name)) as image:
                self.frames.append((self.files * self.args["speed"] / self.args["fps"], np.asarray(image.convert("RGB")).astype(int)))
            self.files += 1

    def snapshot(self):
        """the current animated frame, as saved by env.snapshot"""
        name = os.path.join(self.dir, "snapshot.png")
        self.env.snapshot(name)
        equal(self.env.t(), self.env.now(), "env.t() after snapshot")
        with Image.open(name) as image:
            return np.asarray(image.convert("RGB")).astype(int)

    def frame(self, t):
        found = [f for f_t, f in self.frames if f_t == t]
        equal(len(found), 1, f"number of frames at {t}")
        return found[0]


class Dyn:
    """a (possibly time dependent) attribute: JSON form [form, T, v0, v1]: value v0 before T and v1 from T"""

    shift = 0  # now at the start of the simulation

    def __init__(self, spec):
        self.form, self.T, self.v0, self.v1 = spec

    def __call__(self, t):
        return self.v0 if self.form == "scalar" or t < self.T else self.v1

    def argument(self, env):
        T, v0, v1 = self.T + Dyn.shift, self.v0, self.v1
        if self.form in ("scalar", "set"):
            return v0
        if self.form == "fn0":
            return lambda: v0 if env.t() < T else v1
        if self.form == "fn1":
            return lambda t: v0 if t < T else v1
        if self.form == "fn2":
            return lambda arg, t: (v0 if t < T else v1) if arg == "the arg" else fail("arg is not passed", arg)
        if self.form == "default":
            return lambda t, T=T: v0 if t < T else v1
        if self.form == "method":
            return Holder(T, v0, v1).value
        raise AssertionError(self.form)


class Holder:
    def __init__(self, T, v0, v1):
        self.T, self.v0, self.v1 = T, v0, v1

    def value(self, t):
        return self.v0 if t < self.T else self.v1


forms = st.sampled_from(["scalar", "scalar", "scalar", "set", "fn0", "fn1", "fn2", "method", "default"])
moments = st.sampled_from([0.5, 1.5, 2.5, 3.5])  # never on a frame


def dyn(values):
    return st.tuples(forms, moments, values, values).map(list)


def grid(width, height):
    """x and y (y upward) of the centers of the pixels"""
    xx, yy = np.meshgrid(np.arange(width) + 0.5, height - np.arange(height) - 0.5)
    return xx, yy


def inside_polygon(points, xx, yy):
    result = np.zeros(xx.shape, bool)
    n = len(points)
    for i in range(n):
        (xa, ya), (xb, yb) = points[i], points[(i + 1) % n]
        if ya == yb:
            continue
        cond = (ya > yy) != (yb > yy)
        result ^= cond & (xx < (xb - xa) * (yy - ya) / (yb - ya) + xa)
    return result


def segments(points, closed):
    n = len(points)
    return [(points[i], points[(i + 1) % n]) for i in range(n if closed else n - 1)]


def distance(segs, xx, yy):
    """distance to the nearest segment, distance to the nearest end point"""
    best = np.full(xx.shape, np.inf)
    ends = np.full(xx.shape, np.inf)
    for (xa, ya), (xb, yb) in segs:
        l2 = (xb - xa) ** 2 + (yb - ya) ** 2
        if l2 == 0:
            u = np.zeros(xx.shape)
        else:
            u = np.clip(((xx - xa) * (xb - xa) + (yy - ya) * (yb - ya)) / l2, 0, 1)
        best = np.minimum(best, np.hypot(xx - xa - u * (xb - xa), yy - ya - u * (yb - ya)))
        ends = np.minimum(ends, np.minimum(np.hypot(xx - xa, yy - ya), np.hypot(xx - xb, yy - yb)))
    return best, ends


class Canvas:
    """expected image; pixels can be 'unknown' (close to an edge)"""

    def __init__(self, width, height, background):
        self.width, self.height, self.background = width, height, background
        self.rgb = np.empty((height, width, 3), float)
        self.rgb[:] = COLORS[background]
        self.unknown = np.zeros((height, width), bool)
        self.xx, self.yy = grid(width, height)

    def color(self, name):
        return COLORS[{"bg": self.background, "fg": "white" if self.background == "black" else "black"}.get(name, name)]

    def paint(self, sure, maybe, color, alpha=255):
        a = alpha / 255
        self.rgb[sure] = self.rgb[sure] * (1 - a) + np.array(color) * a
        if alpha == 255:
            self.unknown[sure] = False
        self.unknown |= maybe & ~sure

    def fill(self, points, color, alpha=255, margin=MARGIN):
        inside = inside_polygon(points, self.xx, self.yy)
        d, _ = distance(segments(points, True), self.xx, self.yy)
        self.paint(inside & (d > margin), d <= margin, color, alpha)

    def stroke(self, points, closed, color, linewidth, margin=MARGIN):
        segs = segments(points, closed)
        d, ends = distance(segs, self.xx, self.yy)
        self.paint((d < linewidth / 2 - margin) & (ends > linewidth), d <= linewidth * 0.75 + margin, color)

    def dots(self, points, color, linewidth, margin=MARGIN):
        h = linewidth / 2
        for x, y in points:
            d = np.maximum(abs(self.xx - x), abs(self.yy - y))
            self.paint(d < h - margin, d <= h + margin, color)

    def compare(self, got, what, tolerance=3):
        equal(got.shape, self.rgb.shape, f"size of the frame {what}")
        wrong = (abs(got - self.rgb).max(axis=2) > tolerance) & ~self.unknown
        # thick lines have isolated gaps between their pieces: only pixels in a wrong neighbourhood count
        padded = np.pad(wrong, 1).astype(int)
        n = sum(padded[i : i + wrong.shape[0], j : j + wrong.shape[1]] for i in range(3) for j in range(3))
        wrong &= n >= 5
        if wrong.any():
            row, col = [int(v) for v in np.argwhere(wrong)[len(np.argwhere(wrong)) // 2]]
            fail(
                f"{what}: {int(wrong.sum())} pixels are wrong, e.g. at x={col + 0.5} y={self.height - row - 0.5} (screen): got {tuple(int(v) for v in got[row, col])}, expected {tuple(round(float(v)) for v in self.rgb[row, col])}"
            )
        return float((~self.unknown).mean())
