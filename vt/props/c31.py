from ..anim import *
from ..core import Facet, close

PROPERTY = "C31"
RULE = "at least one object is (partly) visible in one frame, and the picture changes or at least two objects are visible"

W, H = 160, 120
B = st.booleans()
names = st.sampled_from(list(COLORS) + ["fg", "bg"])
pos = st.integers(10, 110)
size = st.integers(8, 60)
delta = st.sampled_from([0, 0, 10, -10, 25, -20])
angles = st.sampled_from([0, 0, 30, 45, 90, 180, -60, 135, 360, 400])
layers = st.sampled_from([0, 0, 1, -1, 2, 0.5])
visibles = st.sampled_from([True, True, True, False, "only in video", "not in video"])
maybe_moment = st.none() | st.none() | moments
linewidths = st.sampled_from([0, 1, 7, 10, 12])


def polygon_of(pts):
    cx = sum(p[0] for p in pts) / len(pts)
    cy = sum(p[1] for p in pts) / len(pts)
    return [v for p in sorted(pts, key=lambda p: math.atan2(p[1] - cy, p[0] - cx)) for v in p]


point = st.tuples(st.integers(-50, 50), st.integers(-40, 40))
polygons = st.lists(point, min_size=3, max_size=5, unique=True).map(polygon_of)
lines = st.lists(point, min_size=2, max_size=4, unique=True).map(lambda ps: [v for p in ps for v in p])
rectangles = st.tuples(st.integers(-40, 10), st.integers(-40, 10), size, size).map(lambda v: [v[0], v[1], v[0] + v[2], v[1] + v[3]])
rounded = st.tuples(rectangles, st.sampled_from([0, 4, 10, 20, 100])).map(lambda v: v[0] + [v[1]])
radii = st.sampled_from([5, 12, 20, 35, 50, 0])
arcs = st.sampled_from([0, 0, 45, 90, -90, 200])

KINDS = {
    "rect": dict(spec=dyn(rectangles), fillcolor=dyn(names), linecolor=dyn(st.sampled_from(["", "", "red", "blue"])), linewidth=dyn(linewidths)),
    "rrect": dict(spec=dyn(rounded), fillcolor=dyn(names), linecolor=dyn(st.sampled_from(["", "", "red", "blue"])), linewidth=dyn(linewidths)),
    "poly": dict(spec=dyn(polygons), fillcolor=dyn(names), linecolor=dyn(st.sampled_from(["", "", "red", "blue"])), linewidth=dyn(linewidths)),
    "line": dict(spec=dyn(lines), linecolor=dyn(names), linewidth=dyn(linewidths)),
    "points": dict(spec=dyn(lines), linecolor=dyn(names), linewidth=dyn(linewidths)),
    "circle": dict(
        radius=dyn(radii), radius1=dyn(st.none() | st.none() | radii), arc_angle0=dyn(arcs), arc_angle1=dyn(st.sampled_from([360, 360, 180, 270, 400])), draw_arc=dyn(B),
        fillcolor=dyn(names), linecolor=dyn(st.sampled_from(["", "", "red", "blue"])), linewidth=dyn(linewidths),
    ),
    "image": dict(
        width=dyn(st.sampled_from([None, 40, 60, 30])), height=dyn(st.sampled_from([None, 30, 50])), anchor=dyn(st.sampled_from(ANCHORS)), alpha=dyn(st.sampled_from([255, 255, 128, 0])),
        flip_horizontal=dyn(B), flip_vertical=dyn(B), image=dyn(st.sampled_from([0, 0, 1])),
    ),
}
CLASSES = dict(rect="AnimateRectangle", rrect="AnimateRectangle", poly="AnimatePolygon", line="AnimateLine", points="AnimatePoints", circle="AnimateCircle", image="AnimateImage", text="AnimateText")
LENGTHS = {"spec", "radius", "radius1", "linewidth", "offsetx", "offsety", "width", "height", "fontsize", "text_offsetx", "text_offsety"}  # scaled with the user coordinates
COMMON = dict(angle=dyn(angles), offsetx=dyn(delta), offsety=dyn(delta), layer=dyn(layers), visible=dyn(visibles), keep=dyn(st.sampled_from([True, True, True, True, False])))


def objects(kind):
    d = dict(KINDS[kind])
    d.update(COMMON)
    optional = {k: v for k, v in d.items() if k not in ("spec", "radius", "image")}
    needed = {k: v for k, v in d.items() if k not in optional}
    attrs = st.fixed_dictionaries(dict(needed, x=dyn(pos), y=dyn(pos)), optional=optional)
    return st.fixed_dictionaries(
        dict(kind=st.just(kind), a=attrs, anchor=st.sampled_from([""] * 4 + ANCHORS), screen=B, remove=maybe_moment, show=maybe_moment, parent=maybe_moment, combined=st.sampled_from([False] * 5 + [True]))
    )


worlds = st.fixed_dictionaries(dict(scale=st.sampled_from([1, 1, 0.5, 2, 4]), x0=st.sampled_from([0, 0, -40, 30]), y0=st.sampled_from([0, 0, -25, 10]), background=st.sampled_from(["white", "black", "yellow"]), mode=st.sampled_from(["yieldless"] * 3 + ["yield"]), reset=st.sampled_from([0, 0, 0, 7, -3]), snap=st.sampled_from([[], [], [0.5], [1.5, 3.5], [2.5]])))
strategy = st.fixed_dictionaries(dict(world=worlds, objects=st.lists(st.sampled_from(["rect", "rect", "rrect", "poly", "poly", "line", "points", "circle", "circle", "image"]).flatmap(objects), min_size=1, max_size=3)))


def scene_of(world):
    s = world["scale"]
    return Scene(W, H, x0=world["x0"], x1=world["x0"] + W / s, y0=world["y0"], background=world["background"], mode=world["mode"], reset=world["reset"])


def anchor_px(anchor):
    x = 0 if anchor == "" or "w" in anchor else W if "e" in anchor else W / 2
    y = H if "n" in anchor else 0 if anchor == "" or "s" in anchor else H / 2
    return x, y


IMAGES = {}


def image_of(i):
    """four quadrants with different colors"""
    if not IMAGES:
        from PIL import Image

        for k, (w, h, colors) in enumerate([(40, 30, ["red", "lime", "blue", "yellow"]), (24, 36, ["cyan", "black", "magenta", "white"])]):
            im = Image.new("RGBA", (w, h))
            for q, c in enumerate(colors):
                im.paste(COLORS[c] + (255,), (w // 2 * (q % 2), h // 2 * (q // 2), w // 2 * (q % 2) + w // 2, h // 2 * (q // 2) + h // 2))
            IMAGES[k] = (im, w, h, colors)
    return IMAGES[i]


def converted(name, value, kind, screen, world, anchor):
    """value in screen coordinates (relative to the anchor) -> as specified"""
    if value is None:
        return None
    s = 1 if screen else world["scale"]
    if name in ("x", "y"):
        v = value - anchor_px(anchor)[name == "y"]
        if anchor == "" and not screen:
            return v / s + world[name + "0"]
        return v / s
    if name == "spec":
        return tuple(v / s for v in value)
    if name in LENGTHS:
        return value / s
    if name == "image":
        return image_of(value)[0]
    return value


class Parent(sim.Component):
    def process(self, till):
        self.hold(till=till)


class YieldParent(sim.Component):
    def process(self, till):
        yield self.hold(till=till)


class Obj:
    def __init__(self, o, world, env):
        self.o = o
        self.kind = o["kind"]
        self.a = {k: Dyn(v) for k, v in o["a"].items()}
        self.world = world
        self.parent = (Parent if world["mode"] == "yieldless" else YieldParent)("parent", env=env, till=o["parent"] - 0.25 + Dyn.shift) if o["parent"] is not None else None
        kw = {}
        for k, d in self.a.items():
            c = Dyn([d.form, d.T, self.conv(k, d.v0), self.conv(k, d.v1)])
            kw[k] = c.argument(env)
        if o["anchor"]:
            kw["xy_anchor"] = o["anchor"]
        if o["screen"]:
            kw["screen_coordinates"] = True
        if self.parent:
            kw["parent"] = self.parent
        self.ao = getattr(sim, CLASSES[self.kind])(env=env, arg="the arg", **kw)
        self.handle = sim.AnimateCombined([self.ao]) if o["combined"] else self.ao
        self.alive = True
        self.sets = sorted((d.T, k) for k, d in self.a.items() if d.form == "set")

    def conv(self, k, v):
        return converted(k, v, self.kind, self.o["screen"], self.world, self.o["anchor"])

    def moments(self):
        o = self.o
        return {T for T, _ in self.sets} | {T for T in (o["remove"], o["show"], o["parent"]) if T is not None}

    def at(self, T):
        for t, k in self.sets:
            if t == T:
                setattr(self.handle, k, self.conv(k, self.a[k].v1))
        if self.o["parent"] == T:
            self.alive = False
        if self.o["remove"] == T:
            self.handle.remove()
            self.alive = False
        if self.o["show"] == T:
            self.handle.show()
            self.alive = True
        equal(self.handle.is_removed(), not self.alive, f"is_removed of {self.kind} at {T}")

    def val(self, k, t, default=None):
        return self.a[k](t) if k in self.a else default

    def shown(self, t, video=True):
        if self.alive and not self.val("keep", t, True):
            self.alive = False
        return self.alive and self.val("visible", t, True) in (True, "only in video" if video else "not in video")

    def draw(self, canvas, t):
        angle = math.radians(self.val("angle", t, 0))
        cosa, sina = math.cos(angle), math.sin(angle)
        ox, oy = self.val("offsetx", t, 0), self.val("offsety", t, 0)
        x, y = self.val("x", t), self.val("y", t)

        def place(px, py):
            px, py = px + ox, py + oy
            return (x + px * cosa - py * sina, y + px * sina + py * cosa)

        kind = self.kind
        if kind == "image":
            self.draw_image(canvas, t, place)
            return
        lw = self.val("linewidth", t, 1 if self.o["screen"] else self.world["scale"])
        line = self.val("linecolor", t, "fg" if kind in ("line", "points") else "")
        fill = self.val("fillcolor", t, "fg")
        spec = self.val("spec", t)
        arc_from = arc_to = None
        if kind in ("rect", "rrect"):
            r = min((spec[4] if len(spec) == 5 else 0), abs(spec[2] - spec[0]) / 2, abs(spec[3] - spec[1]) / 2)
            if r == 0:
                pts = [(spec[0], spec[1]), (spec[2], spec[1]), (spec[2], spec[3]), (spec[0], spec[3])]
            else:
                pts = []
                for cx, cy, a0 in ((spec[0] + r, spec[1] + r, 180), (spec[2] - r, spec[1] + r, 270), (spec[2] - r, spec[3] - r, 0), (spec[0] + r, spec[3] - r, 90)):
                    pts += [(cx + r * math.cos(math.radians(a0 + b)), cy + r * math.sin(math.radians(a0 + b))) for b in range(0, 91, 15)]
        elif kind == "circle":
            r0 = self.val("radius", t)
            r1 = self.val("radius1", t)
            r1 = r0 if r1 is None else r1
            a0, a1 = sorted((self.val("arc_angle0", t, 0), self.val("arc_angle1", t, 360)))
            a1 = min(a1, a0 + 360)
            n = max(2, int((a1 - a0) / 8))
            arc = [(r0 * math.cos(math.radians(a0 + (a1 - a0) * i / n)), r1 * math.sin(math.radians(a0 + (a1 - a0) * i / n))) for i in range(n + 1)]
            full = a1 - a0 == 360
            pts = arc[:-1] if full else [(0, 0)] + arc
        else:
            pts = list(zip(spec[::2], spec[1::2]))
        placed = [place(*p) for p in pts]
        if kind in ("line", "points"):
            if kind == "line":
                if round(lw) > 0:
                    canvas.stroke(placed, False, canvas.color(line), lw)
            elif lw >= 1:
                canvas.dots(placed, canvas.color(line), lw)
            return
        margin = MARGIN if kind != "circle" else MARGIN + 1
        canvas.fill(placed, canvas.color(fill), margin=margin)
        if line and round(lw) > 0:
            if kind == "circle":
                if self.val("draw_arc", t, False):
                    loop = [place(0, 0)] + [place(*p) for p in arc]
                    closed = True
                else:
                    loop = [place(*p) for p in arc]
                    closed = False
                self.stroke_smooth(canvas, loop, closed, canvas.color(line), lw, placed)
            else:
                canvas.stroke(placed, True, canvas.color(line), lw)

    @staticmethod
    def stroke_smooth(canvas, points, closed, color, lw, pie):
        d, _ = distance(segments(points, closed), canvas.xx, canvas.yy)
        canvas.paint(np.zeros(d.shape, bool), d <= lw * 0.75 + MARGIN + 1, color)
        # on the outside there might be gaps between the line pieces; not on the inside
        inside = inside_polygon(pie, canvas.xx, canvas.yy)
        canvas.paint(inside & (d < lw / 2 - MARGIN - 1) & (distance([(p, p) for p in (points[0], points[1], points[-1])], canvas.xx, canvas.yy)[0] > 1.5 * lw), np.zeros(d.shape, bool), color)

    def draw_image(self, canvas, t, place):
        im, iw, ih, colors = image_of(self.val("image", t, 0))
        w, h = self.val("width", t), self.val("height", t)
        s = 1 if self.o["screen"] else self.world["scale"]
        if w is None and h is None:
            w, h = iw * s, ih * s
        elif w is None:
            w = h * iw / ih
        elif h is None:
            h = w * ih / iw
        anchor = self.val("anchor", t, "sw")
        lowx = 0 if "w" in anchor else -w if "e" in anchor else -w / 2
        lowy = 0 if "s" in anchor else -h if "n" in anchor else -h / 2
        m = 2.5 + 3 * max(1, w / iw, h / ih)
        fh, fv = self.val("flip_horizontal", t, False), self.val("flip_vertical", t, False)
        alpha = self.val("alpha", t, 255)
        outline = [place(lowx, lowy), place(lowx + w, lowy), place(lowx + w, lowy + h), place(lowx, lowy + h)]
        d, _ = distance(segments(outline, True), canvas.xx, canvas.yy)
        inside = inside_polygon(outline, canvas.xx, canvas.yy)
        canvas.paint(np.zeros(d.shape, bool), inside | (d <= m), (0, 0, 0))  # unknown, unless painted below
        if alpha == 0:  # completely transparent
            canvas.unknown[:] = self.before
            return
        # as the part of the image that is not close to an edge of a quadrant is known, restore that
        for q in range(4):
            col, row = q % 2, q // 2
            color = COLORS[colors[(1 - col if fh else col) + 2 * (1 - row if fv else row)]]
            xa, ya = lowx + col * w / 2, lowy + (1 - row) * h / 2
            quad = [place(xa, ya), place(xa + w / 2, ya), place(xa + w / 2, ya + h / 2), place(xa, ya + h / 2)]
            dq, _ = distance(segments(quad, True), canvas.xx, canvas.yy)
            sure = inside_polygon(quad, canvas.xx, canvas.yy) & (dq > m)
            a = alpha / 255
            canvas.rgb[sure] = canvas.rgb[sure] * (1 - a) + np.array(color) * a
            canvas.unknown[sure] = False if alpha == 255 else self.before[sure]


def run_case(case):
    world = case["world"]
    labels = set()
    with scene_of(world) as scene:
        env = scene.env
        objs = [Obj(o, world, env) for o in case["objects"]]
        times = sorted(set(world["snap"]).union(*(o.moments() for o in objs)))
        previous = None
        most = 0
        history = []

        def picture(t, video=True):
            canvas = Canvas(W, H, world["background"])
            n = 0
            for o in sorted(objs, key=lambda o: -o.val("layer", t, 0)):
                if o.shown(t, video):
                    before = canvas.rgb.copy()
                    o.before = canvas.unknown.copy()
                    o.draw(canvas, t)
                    if (before != canvas.rgb).any():
                        n += 1
            return canvas, n

        for T in times + [4.25]:
            scene.run(T)
            while len(history) < len(scene.frames):
                t, got = scene.frames[len(history)]
                equal(t, len(history), "time of frame")
                canvas, n = picture(t)
                canvas.compare(got, f"frame at {t}")
                if previous is not None and (previous != canvas.rgb).any() and most:
                    labels.add("nontrivial")
                previous = canvas.rgb
                most = max(most, n)
                history.append(t)
            if T != 4.25:
                for o in objs:
                    o.at(T)
                if T in world["snap"]:
                    picture(T, video=False)[0].compare(scene.snapshot(), f"snapshot at {T}")
        equal(history, [0, 1, 2, 3, 4], "times of the frames")
        if most >= 2:
            labels.add("nontrivial")
        labels.add(f"visible {most}")
    return list(labels | {o["kind"] for o in case["objects"]})



# ---- the same picture, specified in another way


texts = st.sampled_from(["Hg", "Hello", "one\ntwo", "a\nbb\nccc", "", " ", "x"]) | st.lists(st.sampled_from(["Hg", "second", "a\nb"]), min_size=1, max_size=3).map("\n".join)
TEXT = dict(
    text=dyn(texts), textcolor=dyn(names), fontsize=dyn(st.sampled_from([10, 16, 24, 0])), font=dyn(st.sampled_from(["", "mono", "narrow"])), text_anchor=dyn(st.sampled_from(ANCHORS)), max_lines=dyn(st.sampled_from([0, 0, 1, -1, 2])),
)
ATTACHED = dict(TEXT, text_offsetx=dyn(delta), text_offsety=dyn(delta))


def all_objects(kind):
    d = dict(KINDS.get(kind, {}))
    d.update(COMMON)
    d.update(TEXT if kind == "text" else ATTACHED)
    needed = ("spec", "radius", "image", "text")
    attrs = st.fixed_dictionaries(dict({k: v for k, v in d.items() if k in needed}, x=dyn(pos), y=dyn(pos)), optional={k: v for k, v in d.items() if k not in needed})
    return st.fixed_dictionaries(
        dict(kind=st.just(kind), a=attrs, anchor=st.sampled_from([""] * 4 + ANCHORS), screen=B, remove=maybe_moment, show=maybe_moment, parent=maybe_moment, combined=st.sampled_from([False] * 5 + [True]))
    )


same_strategy = st.fixed_dictionaries(dict(world=worlds, objects=st.lists(st.sampled_from(["text", "text", "text", "rect", "rrect", "poly", "line", "points", "circle", "image"]).flatmap(all_objects), min_size=1, max_size=3)))


@st.composite
def one_change(draw):
    """one object of which just one attribute changes"""
    kind = draw(st.sampled_from(["text", "rect", "rrect", "poly", "line", "points", "circle", "image", "image"]))
    d = dict(KINDS.get(kind, {}), **{k: v for k, v in COMMON.items() if k not in ("layer", "visible", "keep")}, x=dyn(pos), y=dyn(pos))
    if kind == "text":
        d.update(TEXT)
    elif kind in ("rect", "rrect", "poly", "line"):
        d.update(as_points=dyn(B))
    change = draw(st.sampled_from(sorted(d) + ["as_points"] * 4 * ("as_points" in d) + ["draw_arc"] * 4 * ("draw_arc" in d)))
    d.update({} if kind == "text" or draw(B) else ATTACHED)
    a = {}
    for k in sorted(d):
        form, T, v0, v1 = draw(d[k])
        a[k] = ["set" if form == "scalar" else form, T, v0, v1] if k == change else ["scalar", T, v0, v0]
    if change in ("as_points", "draw_arc"):  # these are visible in the line only
        a["linecolor"][2:] = ["red", "red"]
        a["linewidth"][2:] = [7, 7]
        if kind == "circle":
            a["arc_angle1"][2:] = [180, 180]
    return dict(kind=kind, a=a, anchor=draw(st.sampled_from([""] * 4 + ANCHORS)), screen=draw(B), remove=None, show=None, parent=None, combined=draw(st.sampled_from([False] * 5 + [True])))


one_strategy = st.fixed_dictionaries(dict(world=worlds, objects=one_change().map(lambda o: [o])))


def static(obj, t):
    """the object at time t in screen coordinates with constant attributes"""
    s = 1 if obj.o["screen"] else obj.world["scale"]
    a = {k: d(t) for k, d in obj.a.items() if k not in ("keep", "visible")}
    kind = obj.kind
    if kind == "image" and a.get("width") is None and a.get("height") is None:
        _, iw, ih, _ = image_of(a["image"])
        a.update(width=iw * s, height=ih * s)
    if kind not in ("image", "text"):
        a.setdefault("linewidth", s)
    a.setdefault("fontsize", 15 * s)
    return dict(kind=kind, a={k: ["scalar", 0, v, v] for k, v in a.items()}, anchor="", screen=True, remove=None, show=None, parent=None, combined=False)


def run_same(case):
    world = case["world"]
    labels = set()
    expected = []
    with scene_of(world) as scene:
        env = scene.env
        # the four corners of the picture in user coordinates, and back
        k, x0, y0 = world["scale"], world["x0"], world["y0"]
        for v in (0, W, H, 33.5):
            close(env.screen_to_user_coordinates_x(v), x0 + v / k, "screen_to_user_coordinates_x")
            close(env.screen_to_user_coordinates_y(v), y0 + v / k, "screen_to_user_coordinates_y")
            close(env.screen_to_user_coordinates_size(v), v / k, "screen_to_user_coordinates_size")
            close(env.user_to_screen_coordinates_x(x0 + v / k), v, "user_to_screen_coordinates_x")
            close(env.user_to_screen_coordinates_y(y0 + v / k), v, "user_to_screen_coordinates_y")
            close(env.user_to_screen_coordinates_size(v / k), v, "user_to_screen_coordinates_size")
        objs = [Obj(o, world, env) for o in case["objects"]]
        times = sorted(set().union(*(o.moments() for o in objs)))
        for T in times + [4.25]:
            scene.run(T)
            while len(expected) < len(scene.frames):
                t = len(expected)
                expected.append([static(o, t) for o in objs if o.shown(t)])
            if T != 4.25:
                for o in objs:
                    o.at(T)
        frames = scene.frames
        equal([t for t, _ in frames], [0, 1, 2, 3, 4], "times of the frames")
    cache = {}
    for t, os in enumerate(expected):
        key = repr(os)
        if key not in cache:
            with Scene(W, H, background=world["background"]) as other:
                for o in os:
                    Obj(o, dict(world, scale=1, x0=0, y0=0, mode="yieldless"), other.env)
                other.run(0.5)
                equal(len(other.frames), 1, "number of frames")
                cache[key] = other.frames[0][1]
        Same.compare(frames[t][1], cache[key], f"frame at {t} and the same picture in screen coordinates with constants")
        if os and (len(cache) > 1 or len(os) > 1):
            labels.add("nontrivial")
        labels |= {o["kind"] for o in os}
    return list(labels)


class Same:
    @staticmethod
    def compare(got, expected, what, tolerance=2, least=2):
        """a shift of one pixel (and a few isolated pixels) might be caused by rounding"""
        equal(got.shape, expected.shape, f"sizes of {what}")
        h, w = got.shape[:2]
        for x, y in ((got, expected), (expected, got)):
            wrong = (x != y).any(axis=2)
            if not wrong.any():
                return
            padded = np.pad(y, ((1, 1), (1, 1), (0, 0)), mode="edge")
            for i in range(3):
                for j in range(3):
                    wrong &= (abs(x - padded[i : i + h, j : j + w]) > tolerance).any(axis=2)
            padded = np.pad(wrong, 1).astype(int)
            wrong &= sum(padded[i : i + h, j : j + w] for i in range(3) for j in range(3)) >= least
            if wrong.any():
                row, col = [int(v) for v in np.argwhere(wrong)[0]]
                fail(f"{what} differ in {int(wrong.sum())} pixels, e.g. at x={col} y={H - row - 1} (screen): got {got[row, col].tolist()}, expected {expected[row, col].tolist()}")


# ---- where the text is


text_strategy = st.fixed_dictionaries(
    dict(
        x=st.integers(100, 140), y=st.integers(100, 140), lines=st.lists(st.sampled_from(["Hg", "HHg", "Hgggg", "gH"]), min_size=1, max_size=3), max_lines=st.sampled_from([0, 0, 1, 2, -1, -2]), as_list=B,
        text_anchor=st.sampled_from(ANCHORS), angle=st.sampled_from([0, 0, 90, 180, 270, 45, -30]), offsetx=delta, offsety=delta, fontsize=st.sampled_from([14, 20, 30]), textcolor=names, font=st.sampled_from(["", "mono"]),
        background=st.sampled_from(["white", "black", "yellow"]), on=st.none() | st.none() | st.sampled_from([(60, 40), (30, 30)]), text_offsetx=delta, text_offsety=delta,
    )
)
TW = 240


def run_text(case):
    fs = case["fontsize"]
    with Scene(TW, TW, background=case["background"]) as scene:
        args = dict(
            x=case["x"], y=case["y"], text=list(case["lines"]) if case["as_list"] else "\n".join(case["lines"]), text_anchor=case["text_anchor"], offsetx=case["offsetx"], offsety=case["offsety"], fontsize=fs, textcolor=case["textcolor"],
            font=case["font"], max_lines=case["max_lines"], screen_coordinates=True, env=scene.env,
        )
        angle = case["angle"]
        if case["on"]:
            angle = 0
            w, h = case["on"]
            sim.AnimateRectangle(spec=(-w, -h, w, h), fillcolor="", text_offsetx=case["text_offsetx"], text_offsety=case["text_offsety"], **args)
        else:
            sim.AnimateText(angle=angle, **args)
        scene.run(0.5)
        image = scene.frames[0][1]
        canvas = Canvas(TW, TW, case["background"])
        color = canvas.color(case["textcolor"])
        ml = case["max_lines"]
        lines = case["lines"][:ml] if ml > 0 else case["lines"][ml:]
        font = sim.getfont(case["font"], fs)[0]
        tw = max(font.getbbox(line)[2] for line in lines)
        lh = font.getbbox("Ap")[3]
        th = lh * len(lines)
    ink = (image != canvas.rgb).any(axis=2)
    if color == canvas.color("bg"):
        check(not ink.any(), "text in the background color is visible")
        return []
    check(ink.any(), "text is not visible")
    check((image == np.array(color)).all(axis=2).any(), "the text does not have the right color", color)
    a = math.radians(angle)
    dx, dy = canvas.xx[ink] - case["x"], canvas.yy[ink] - case["y"]
    lx, ly = dx * math.cos(a) + dy * math.sin(a) - case["offsetx"], -dx * math.sin(a) + dy * math.cos(a) - case["offsety"]
    anchor = case["text_anchor"]
    if case["on"]:  # the text is inside the rectangle at the given side
        lx -= case["text_offsetx"] + (w if "e" in anchor else -w if "w" in anchor else 0)
        ly -= case["text_offsety"] + (h if "n" in anchor else -h if "s" in anchor else 0)
    x0 = 0 if "w" in anchor else -tw if "e" in anchor else -tw / 2
    y0 = 0 if "s" in anchor else -th if "n" in anchor else -th / 2
    slack = 0.25 * fs + 3
    what = f"text with anchor {anchor}: x {lx.min():.1f} .. {lx.max():.1f}, y {ly.min():.1f} .. {ly.max():.1f}; expected box x {x0:.1f} .. {x0 + tw:.1f}, y {y0:.1f} .. {y0 + th:.1f}"
    check(x0 - slack <= lx.min() <= x0 + slack and x0 + tw - slack <= lx.max() <= x0 + tw + slack, what)
    check(y0 - slack <= ly.min() <= y0 + 0.5 * fs and y0 + th - 0.7 * fs <= ly.max() <= y0 + th + slack, what)
    return ["nontrivial"]


# ---- animated images


gif_strategy = st.fixed_dictionaries(
    dict(
        durations=st.lists(st.sampled_from([200, 500, 1000, 1500]), min_size=2, max_size=5), created=st.sampled_from([0, 0, 0.5, 1.25]), start=st.none() | st.sampled_from([0, 0.5, 2, 1.5]), speed=st.none() | st.sampled_from([1, 2, 0.5]),
        repeat=st.none() | B, pingpong=st.none() | B, fromto=st.none() | st.tuples(st.integers(0, 40), st.integers(5, 60)), ext=st.sampled_from(["gif", "gif", "png", "webp"]), second=B,
    )
)
GIFCOLORS = ["red", "lime", "blue", "yellow", "magenta"]


def run_gif(case):
    from PIL import Image

    with Scene(60, 40, fps=8) as scene:
        env = scene.env
        file = f"{scene.dir}/a.{case['ext']}"
        durations = [d / 1000 for d in case["durations"]]
        images = [Image.new("RGB", (20, 20), COLORS[GIFCOLORS[i]]) for i in range(len(durations))]
        images[0].save(file, save_all=True, append_images=images[1:], duration=case["durations"], loop=0, **(dict(lossless=True) if case["ext"] == "webp" else {}))
        total = sum(durations)
        kw = {}
        if case["start"] is not None:
            kw["animation_start"] = case["start"]
        if case["speed"] is not None:
            kw["animation_speed"] = case["speed"]
        if case["repeat"] is not None:
            kw["animation_repeat"] = case["repeat"]
        if case["pingpong"] is not None:
            kw["animation_pingpong"] = case["pingpong"]
        t_from, t_to = 0, total
        if case["fromto"] is not None:
            t_from = case["fromto"][0] / 40 * (total - 0.1)
            t_to = t_from + case["fromto"][1] / 60 * (total - t_from)
            kw.update(animation_from=t_from, animation_to=t_to)
        if case["created"]:
            scene.run(case["created"])
        if case["second"]:
            sim.AnimateImage(file, x=100, y=100, animation_start=0.3, animation_repeat=True, env=env)  # outside the window
        sim.AnimateImage(file, x=10, y=10, env=env, **kw)
        scene.run(9)
        n = 0
        for t, image in scene.frames:
            u = (t - (case["created"] if case["start"] is None else case["start"])) * (1 if case["speed"] is None else case["speed"])
            span = (t_to - t_from) * (2 if case["pingpong"] else 1)
            if t < case["created"] or (t == case["created"] and case["created"]):
                continue
            if abs(u) < 1e-6 or abs(u / span - round(u / span)) < 1e-6:
                continue
            if u < 0 or (u > span and not case["repeat"]):
                expected = (255, 255, 255)
            else:
                u %= span
                v = t_from + (u if u <= t_to - t_from else span - u)
                cum = 0
                for i, d in enumerate(durations):
                    cum += d
                    if v < cum or i == len(durations) - 1:
                        break
                if any(abs(v - sum(durations[: j + 1])) < 1e-6 for j in range(len(durations))):
                    continue
                expected = COLORS[GIFCOLORS[i]]
                n += 1
            got = image[20, 20]
            check(max(abs(int(g) - e) for g, e in zip(got, expected)) <= 3, f"animated image at {t}", got.tolist(), expected)
        return ["nontrivial"] if n >= 3 else []


# ---- objects that change linearly with time (Animate)


def linear(values):
    return st.tuples(values, st.none() | values).map(list)


CLASSIC = {
    "rectangle": dict(rectangle=linear(rectangles)), "polygon": dict(polygon=st.integers(3, 5).flatmap(lambda n: linear(st.lists(point, min_size=n, max_size=n, unique=True).map(polygon_of)))),
    "line": dict(line=st.integers(2, 4).flatmap(lambda n: linear(st.lists(point, min_size=n, max_size=n, unique=True).map(lambda ps: [v for p in ps for v in p])))),
    "circle": dict(circle=linear(st.sampled_from([5, 20, 35]))), "text": dict(fontsize=linear(st.sampled_from([10, 20, 30])), textcolor=linear(names)), "image": dict(width=linear(st.sampled_from([20, 40, 60])), height=linear(st.sampled_from([20, 40, 60])), alpha=linear(st.sampled_from([255, 100, 200]))),
}
SHAPE = dict(linewidth=linear(linewidths), fillcolor=linear(names), linecolor=linear(names))


def spans(now):
    """[t0, t1], where the duration is a power of two, so interpolations are exact"""
    return st.tuples(st.none() | st.sampled_from([0, 1, 0.5, 2]), st.none() | st.sampled_from([0.5, 1, 2, 4, 8])).map(lambda v: [v[0], None if v[1] is None else (now if v[0] is None else v[0]) + v[1]])


def classics(kind):
    opt = dict(x=linear(pos), y=linear(pos), offsetx=linear(delta), offsety=linear(delta), angle=linear(angles), **(SHAPE if kind not in ("text", "image") else {}))
    values = st.fixed_dictionaries(CLASSIC[kind], optional=opt)
    span = spans(0)
    which = st.lists(st.sampled_from(["x", "y", "angle", "offsetx", "fillcolor", "linewidth", kind, "alpha", "fontsize"]), max_size=4)
    update = st.none() | moments.flatmap(lambda at: st.fixed_dictionaries(dict(at=st.just(at), values=values, which=which, span=spans(at))))
    return st.fixed_dictionaries(dict(kind=st.just(kind), values=values, span=span, keep=st.none() | B, screen=B, layer=st.sampled_from([None, 0, 1, -1]), update=update, anchor=st.sampled_from(["c", "c", "sw", "ne"])))


classic_strategy = st.fixed_dictionaries(dict(world=worlds, objects=st.lists(st.sampled_from(list(CLASSIC)).flatmap(classics), min_size=1, max_size=2)))
CLASSIC_NAMES = dict(rectangle="rect", polygon="poly", line="line", circle="circle", text="text", image="image")
CLASSIC_DEFAULTS = dict(x=0, y=0, offsetx=0, offsety=0, angle=0, linecolor="fg", fillcolor="fg", textcolor="fg", alpha=255, fontsize=20)


def mix(a, b, f):
    if isinstance(a, (list, tuple)):
        return [mix(x, y, f) for x, y in zip(a, b)]
    return a + (b - a) * f


class Classic:
    def __init__(self, o, world, env):
        self.o, self.world, self.env = o, world, env
        self.kind = o["kind"]
        s = 1 if o["screen"] else world["scale"]
        self.defaults = dict(CLASSIC_DEFAULTS, linewidth=s if self.kind == "line" else 0, fontsize=20 * s)
        if not o["screen"]:
            self.defaults.update(x=-world["x0"] * s, y=-world["y0"] * s)
        kw = dict(text="Hg\nHello") if self.kind == "text" else dict(image=image_of(0)[0]) if self.kind == "image" else {}
        if self.kind in ("text", "image"):
            kw["anchor"] = o["anchor"]
        if o["keep"] is not None:
            kw["keep"] = o["keep"]
        if o["layer"] is not None:
            kw["layer"] = o["layer"]
        self.v = {}
        for k, (v0, v1) in o["values"].items():
            kw[k + "0"] = self.conv(k, v0)
            if v1 is not None:
                kw[k + "1"] = self.conv(k, v1)
            self.v[k] = (v0, v0 if v1 is None else v1)
        self.times(kw, o["span"], 0)
        self.ao = sim.Animate(env=env, screen_coordinates=o["screen"], **kw)
        self.alive = True

    def times(self, kw, span, now):
        t0, t1 = span
        if t0 is not None:
            kw["t0"] = t0 + Dyn.shift
        if t1 is not None:
            kw["t1"] = t1 + Dyn.shift
        self.t0 = now if t0 is None else t0
        self.t1 = float("inf") if t1 is None else t1

    def conv(self, k, v):
        k = dict(rectangle="spec", polygon="spec", line="spec", circle="radius").get(k, k)
        return converted(k, v, self.kind, self.o["screen"], self.world, "")

    def tuple_of(self, v):
        if isinstance(v, str):
            bg = self.world["background"]
            return list(COLORS[{"bg": bg, "fg": "white" if bg == "black" else "black"}.get(v, v)]) + [255]
        return v

    def value(self, k, t):
        if k not in self.v:
            return self.tuple_of(self.defaults[k])
        v0, v1 = self.v[k]
        v0, v1 = self.tuple_of(v0), self.tuple_of(v1)
        if self.t1 == float("inf"):
            return v0
        f = max(0, min(1, (t - self.t0) / (self.t1 - self.t0)))
        return v0 if f == 0 else v1 if f == 1 else mix(v0, v1, f)

    def update(self, T):
        u = self.o["update"]
        if u is None or u["at"] != T or u["span"][1] is not None and (T if u["span"][0] is None else u["span"][0]) >= u["span"][1]:
            return
        kw = {}
        new = {}
        names = set(self.v) | set(self.defaults)
        for k in names:
            current = self.value(k, T) if k in self.v else self.defaults[k]
            if k in u["which"] and k in u["values"]:
                v0, v1 = u["values"][k]
                if isinstance(v0, list) and len(v0) != len(current):
                    v0, v1 = None, None
                if v0 is None:
                    new[k] = (current, current)
                    continue
                kw[k + "0"] = self.conv(k, v0)
                new[k] = (v0, v0)
                if v1 is not None:
                    kw[k + "1"] = self.conv(k, v1)
                    new[k] = (v0, v1)
            elif k in u["values"] and k in self.v and u["values"][k][1] is not None and not (isinstance(u["values"][k][1], list) and len(u["values"][k][1]) != len(current)):
                kw[k + "1"] = self.conv(k, u["values"][k][1])
                new[k] = (current, u["values"][k][1])
            elif k in self.v:
                new[k] = (current, current)
        self.v = new
        self.times(kw, u["span"], T)
        self.ao.update(**kw)

    def shown(self, t):
        if self.alive and self.o["keep"] is False and t > self.t1:
            self.alive = False
        return self.alive and t >= self.t0

    def check(self, t):
        for k in set(self.v) & {"x", "y", "offsetx", "offsety", "angle", "linewidth", "fontsize", "alpha", "width", "height", "rectangle", "polygon", "line", "circle"}:
            got = getattr(self.ao, k)(t + Dyn.shift)
            exp = self.conv(k, self.value(k, t))
            close(list(got) if isinstance(got, (list, tuple)) else got, list(exp) if isinstance(exp, (list, tuple)) else exp, f"{k} of {self.kind} at {t}", rel=1e-6, abs_=1e-6)
        for k in set(self.v) & {"fillcolor", "linecolor", "textcolor"}:
            got = self.env.colorspec_to_tuple(getattr(self.ao, k)(t + Dyn.shift))
            check(all(abs(g - e) <= 2 for g, e in zip(got, self.value(k, t))), f"{k} of {self.kind} at {t}", got, self.value(k, t))

    def expected(self, t):
        """as an object with constants"""
        a = {k: self.value(k, t) for k in set(self.v) | set(self.defaults)}
        for k in ("fillcolor", "linecolor", "textcolor"):
            a[k] = tuple(round(v) for v in a[k])
        kind = CLASSIC_NAMES[self.kind]
        if kind in ("rect", "poly", "line"):
            a["spec"] = a.pop(self.kind)
        if kind == "circle":
            a["radius"] = a.pop("circle")
        if kind == "text":
            a.update(text="Hg\nHello", text_anchor=self.o["anchor"], font="")
        if kind == "image":
            a.update(image=0, anchor=self.o["anchor"])
        allowed = dict(
            rect=["spec", "linewidth", "linecolor", "fillcolor"], poly=["spec", "linewidth", "linecolor", "fillcolor"], line=["spec", "linewidth", "linecolor"], circle=["radius", "linewidth", "linecolor", "fillcolor"],
            text=["text", "textcolor", "fontsize", "text_anchor", "font"], image=["image", "width", "height", "alpha", "anchor"],
        )[kind]
        a = {k: ["scalar", 0, v, v] for k, v in a.items() if k in allowed + ["x", "y", "offsetx", "offsety", "angle"]}
        a["layer"] = ["scalar", 0, self.o["layer"] or 0, 0]
        return dict(kind=kind, a=a, anchor="", screen=True, remove=None, show=None, parent=None, combined=False)


def run_classic(case):
    world = case["world"]
    labels = set()
    expected = []
    with scene_of(world) as scene:
        env = scene.env
        objs = [Classic(o, world, env) for o in case["objects"]]
        times = sorted({o["update"]["at"] for o in case["objects"] if o["update"]})
        for T in times + [4.25]:
            scene.run(T)
            while len(expected) < len(scene.frames):
                t = len(expected)
                shown = [o for o in objs if o.shown(t)]
                for o in shown:
                    o.check(t)
                expected.append([o.expected(t) for o in shown])
            if T != 4.25:
                for o in objs:
                    o.update(T)
        frames = scene.frames
        equal([t for t, _ in frames], [0, 1, 2, 3, 4], "times of the frames")
    seen = set()
    for t, os in enumerate(expected):
        seen.add(repr(os))
        with Scene(W, H, background=world["background"]) as other:
            for o in os:
                Obj(o, dict(world, scale=1, x0=0, y0=0, mode="yieldless"), other.env)
            other.run(0.5)
            reference = other.frames[0][1]
        Same.compare(frames[t][1], reference, f"Animate object(s) at {t} and the same objects with constants", tolerance=8, least=3)
        labels |= {o["kind"] for o in os}
    if len(seen) >= 3:
        labels.add("nontrivial")
    return list(labels)


FACETS = [
    Facet("shapes", strategy, run_case, quick=600, thorough=10000),
    Facet("same", same_strategy, run_same, quick=400, thorough=8000),
    Facet("one change", one_strategy, run_same, quick=1000, thorough=10000),
    Facet("text", text_strategy, run_text, quick=300, thorough=4000),
    Facet("gif", gif_strategy, run_gif, quick=200, thorough=3000),
    Facet("classic", classic_strategy, run_classic, quick=300, thorough=5000),
]
