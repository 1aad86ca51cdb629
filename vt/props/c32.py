from ..anim import *
from ..core import Facet

PROPERTY = "C32"
RULE = "the contents shown (components in the queue, or values of the monitor) change at least twice between frames, and at least two components or values are visible in one frame"

W, H = 160, 120
B = st.booleans()
PALETTE = ["red", "lime", "blue", "magenta", "cyan", "black"]
DIRECTIONS = ["w", "e", "n", "s", "W", "E"]


def optional_dyn(values):
    return st.none() | dyn(values)


queue_ops = st.tuples(moments, st.sampled_from(["enter", "enter", "enter", "leave", "head", "move"]), st.integers(0, 5)).map(list)
animates = st.fixed_dictionaries(
    dict(
        x=dyn(st.integers(30, 120)), y=dyn(st.integers(20, 100)), direction=optional_dyn(st.sampled_from(DIRECTIONS)), max_length=optional_dyn(st.sampled_from([None, 0, 1, 2, 3])), reverse=optional_dyn(B), visible=optional_dyn(B), keep=st.none() | dyn(st.sampled_from([True, True, False])),
        anchor=st.sampled_from([None, None] + ANCHORS), screen=st.sampled_from([True, True, False]), id=optional_dyn(st.sampled_from([1, 2])), remove=st.none() | st.none() | moments, show=st.none() | st.none() | moments, parent=st.none() | st.none() | moments,
        trajectory=st.sampled_from([None, None, None, [0, 0, 40, 0], [10, 0, 10, -50], [0, 0, 30, 30], [0, 0, -20, 0, -20, 40], [0, 0, 20, 20, 60, 20]]), t0=st.sampled_from([None, 0, 3, 25]), via=st.sampled_from(["class", "method"]),
    )
)
worlds = st.fixed_dictionaries(dict(scale=st.sampled_from([1, 1, 0.5, 2]), x0=st.sampled_from([0, 0, -40, 30]), y0=st.sampled_from([0, 0, -25]), mode=st.sampled_from(["yieldless"] * 3 + ["yield"]), reset=st.sampled_from([0, 0, 7]), snap=st.sampled_from([[], [], [0.5], [1.5, 3.5], [2.5]])))
queue_strategy = st.fixed_dictionaries(
    dict(
        world=worlds, initial=st.lists(st.integers(0, 5), unique=True, max_size=4), dims=st.lists(st.tuples(st.sampled_from([14, 16, 20]), st.sampled_from([14, 18])), min_size=6, max_size=6), ops=st.lists(queue_ops, min_size=1, max_size=8).map(lambda v: sorted(v, key=lambda o: o[0])),
        animates=st.lists(animates, min_size=1, max_size=2), style=st.sampled_from(["id", "id", "noid", "callable", "default", "classic"]),
    )
)


class Parent(sim.Component):
    def process(self, till):
        self.hold(till=till)


class YieldParent(sim.Component):
    def process(self, till):
        yield self.hold(till=till)


def anchor_px(anchor):
    x = 0 if anchor in (None, "") or "w" in anchor else W if "e" in anchor else W / 2
    y = H if anchor and "n" in anchor else 0 if anchor in (None, "") or "s" in anchor else H / 2
    return x, y


class ColoredBase(sim.Component):
    def setup(self, i, dims):
        self.i = i
        self.dims = dims

    def rectangle(self, half, screen_coordinates, color):
        return sim.AnimateRectangle(spec=(-half, -half, half, half), fillcolor=color, linewidth=0, screen_coordinates=screen_coordinates, env=self.env)


class WithId(ColoredBase):
    def animation_objects(self, id, screen_coordinates):
        # in id 2, the components are displayed in another color
        k = 1 if screen_coordinates else 1 / self.scale
        return (self.dims[0] * k, self.dims[1] * k, self.rectangle(6 * k, screen_coordinates, PALETTE[self.i if id != 2 else 5 - self.i]))


class NoId(ColoredBase):
    def animation_objects(self):
        return (self.dims[0], self.dims[1], self.rectangle(6, True, PALETTE[self.i]))


class CallableDims(ColoredBase):
    def animation_objects(self, id, screen_coordinates):
        k = 1 if screen_coordinates else 1 / self.scale
        return [lambda: self.dims[0] * k, lambda t: self.dims[1] * k, self.rectangle(6 * k, screen_coordinates, PALETTE[self.i]), self.rectangle(2.5 * k, screen_coordinates, PALETTE[self.i])]


class ClassicObjects(ColoredBase):
    def animation_objects(self, id, screen_coordinates):
        k = 1 if screen_coordinates else 1 / self.scale
        return (self.dims[0] * k, self.dims[1] * k, sim.Animate(rectangle0=(-6 * k, -6 * k, 6 * k, 6 * k), linewidth0=0, fillcolor0=PALETTE[self.i], screen_coordinates=screen_coordinates, env=self.env))


class Default(ColoredBase):
    pass


STYLES = dict(id=WithId, noid=NoId, callable=CallableDims, default=Default, classic=ClassicObjects)


class QueueShow:
    def __init__(self, a, world, q, env, style, number):
        self.a, self.world, self.q, self.style = a, world, q, style
        screen = a["screen"] or style == "noid"
        self.screen = screen
        self.d = {k: Dyn(a[k]) for k in ("x", "y", "direction", "max_length", "reverse", "visible", "keep", "id") if a[k] is not None}
        kw = {}
        for k, d in self.d.items():
            kw[k] = Dyn([d.form, d.T, self.conv(k, d.v0), self.conv(k, d.v1)]).argument(env)
        if a["anchor"] is not None:
            kw["xy_anchor"] = a["anchor"]
        if not screen:
            kw["screen_coordinates"] = False
        if a["trajectory"] is not None:
            s = 1 if screen else world["scale"]
            kw["trajectory"] = sim.TrajectoryPolygon([v / s for v in a["trajectory"]], vmax=1, **({} if a["t0"] is None else {"t0": a["t0"]}))
        if a["parent"] is not None:
            kw["parent"] = (Parent if world["mode"] == "yieldless" else YieldParent)("parent", env=env, till=a["parent"] - 0.25 + Dyn.shift)
        if a["via"] == "method":
            self.ao = q.animate(title="", arg="the arg", **kw)
        else:
            self.ao = sim.AnimateQueue(q, title="", arg="the arg", **kw)
        self.alive = True

    def conv(self, k, v):
        if k in ("x", "y"):
            v = v - anchor_px(self.a["anchor"])[k == "y"]
            return v if self.screen else v / self.world["scale"]
        return v

    def moments(self):
        return {d.T for d in self.d.values() if d.form == "set"} | {self.a[k] for k in ("remove", "show", "parent") if self.a[k] is not None}

    def at(self, T):
        for k, d in self.d.items():
            if d.form == "set" and d.T == T:
                setattr(self.ao, k, self.conv(k, d.v1))
        if self.a["parent"] == T:
            self.alive = False
        if self.a["remove"] == T:
            self.ao.remove()
            self.alive = False
        if self.a["show"] == T:
            self.ao.show()
            self.alive = True
        equal(self.ao.is_removed(), not self.alive, f"is_removed at {T}")

    def val(self, k, t, default):
        return self.d[k](t) if k in self.d else default

    def expected(self, contents, dims, t):
        """list of (component index, x, y, angle) in screen coordinates"""
        if self.alive and not self.val("keep", t, True):
            self.alive = False
        if not self.alive or not self.val("visible", t, True):
            return []
        order = list(reversed(contents)) if self.val("reverse", t, False) else list(contents)
        n = self.val("max_length", t, None)
        if n is not None:
            order = order[:n]
        x, y = self.val("x", t, None), self.val("y", t, None)
        direction = self.val("direction", t, "w").lower()
        tr = self.a["trajectory"]
        cum = 0
        result = []
        for i in order:
            dx, dy = dims[i]
            if tr:
                px, py, angle = along(tr, cum)
                result.append((i, x + px, y + py, angle))
                cum += dx
            else:
                result.append((i, x, y, 0))
                if direction == "w":
                    x -= dx
                elif direction == "e":
                    x += dx
                elif direction == "n":
                    y += dy
                else:
                    y -= dy
        return result


def along(polygon, d):
    pts = list(zip(polygon[::2], polygon[1::2]))
    angle = 0
    for (xa, ya), (xb, yb) in zip(pts, pts[1:]):
        length = math.hypot(xb - xa, yb - ya)
        angle = math.degrees(math.atan2(yb - ya, xb - xa))
        if d <= length:
            return xa + (xb - xa) * d / length, ya + (yb - ya) * d / length, angle
        d -= length
    return pts[-1][0], pts[-1][1], angle


def run_queue(case):
    world = case["world"]
    style = case["style"]
    s = world["scale"]
    dims = [list(d) for d in case["dims"]]
    if style == "noid":
        sizes = [6] * 6
    elif style == "default":
        sizes = [20] * 6
        dims = [[50, 50]] * 6
    else:
        sizes = [6] * 6
    labels = set()
    with Scene(W, H, x0=world["x0"], x1=world["x0"] + W / s, y0=world["y0"], background="white", mode=world["mode"], reset=world["reset"]) as scene:
        env = scene.env
        q = sim.Queue("q", env=env)
        cls = STYLES[style]
        ColoredBase.scale = s
        comps = [cls(f"c{i}", i=i, dims=dims[i], env=env, process="") for i in range(6)]
        contents = []
        for i in case["initial"]:
            comps[i].enter(q)
            contents.append(i)
        shows = [QueueShow(a, world, q, env, style, n) for n, a in enumerate(case["animates"])]
        times = sorted({o[0] for o in case["ops"]}.union(world["snap"], *(a.moments() for a in shows)))
        done = 0
        changes = set()

        def picture(t):
            canvas = Canvas(W, H, "white")
            painted = np.zeros((H, W), bool)
            n = 0
            for show in shows:
                k = 1 if show.screen or style != "default" else s
                items = show.expected(contents, [[v * k for v in d] for d in dims], t)
                n = max(n, len(items))
                for i, x, y, angle in items:
                    h = sizes[i] * k
                    ca, sa = math.cos(math.radians(angle)), math.sin(math.radians(angle))
                    pts = [(x + px * ca - py * sa, y + px * sa + py * ca) for px, py in ((-h, -h), (h, -h), (h, h), (-h, h))]
                    color = "black" if style == "default" else PALETTE[5 - i if style == "id" and show.val("id", t, None) == 2 else i]
                    area = inside_polygon([(x + (px - x) * 1.2, y + (py - y) * 1.2) for px, py in pts], canvas.xx, canvas.yy)
                    canvas.fill(pts, COLORS[color])
                    if style == "classic" and angle % 90:  # not specified whether these are rotated as well
                        distance = np.hypot(canvas.xx - x, canvas.yy - y)
                        canvas.unknown |= (distance > 0.9 * h) & (distance < 1.6 * h)
                    canvas.unknown |= area & painted  # the order of components that overlap is not specified
                    painted |= area
                    if style == "default":  # the sequence number is shown in the middle
                        canvas.unknown |= (abs(canvas.xx - x) < 0.7 * h) & (abs(canvas.yy - y) < 0.7 * h)
            return canvas, n

        for T in times + [4.25]:
            scene.run(T)
            while done < len(scene.frames):
                t, got = scene.frames[done]
                equal(t, done, "time of frame")
                canvas, n = picture(t)
                canvas.compare(got, f"frame at {t} (queue: {contents})")
                changes.add(tuple(contents))
                if n >= 2:
                    labels.add("two")
                done += 1
            if T == 4.25:
                break
            for t, name, i in case["ops"]:
                if t != T:
                    continue
                if name in ("enter", "head"):
                    if i not in contents:
                        (comps[i].enter if name == "enter" else comps[i].enter_at_head)(q)
                        contents.insert(len(contents) if name == "enter" else 0, i)
                elif name == "leave":
                    if contents:
                        j = contents.pop(i % len(contents))
                        comps[j].leave(q)
                else:
                    if contents:
                        j = contents.pop()
                        q.remove(comps[j])
                        comps[j].enter_at_head(q)
                        contents.insert(0, j)
            for show in shows:
                show.at(T)
            if T in world["snap"]:
                picture(T)[0].compare(scene.snapshot(), f"snapshot at {T} (queue: {contents})")
        equal(done, 5, "number of frames")
        for show in shows:
            show.ao.remove()
        scene.run(5.25)
        canvas = Canvas(W, H, "white")
        canvas.compare(scene.frames[5][1], "frame after removing the animated queues", tolerance=0)
    if len(changes) >= 3 and "two" in labels:
        labels.add("nontrivial")
    return list(labels | {style})


# ---- monitors

mon_values = st.sampled_from([0, 1, 2, 3, 4, 5, 8, -2, 2.5])
monitor_strategy = st.fixed_dictionaries(
    dict(
        world=worlds, level=B, kind=st.sampled_from(["num", "num", "num", "map", "text"]), initial=mon_values, tallies=st.lists(st.tuples(st.sampled_from([0.25, 0.5, 0.75, 1, 1.25, 1.5, 2.25, 2.5, 3, 3.5, 3.75]), mon_values), max_size=8).map(lambda v: sorted(v, key=lambda x: x[0])),
        x=st.integers(10, 50), y=st.integers(10, 40), width=st.sampled_from([60, 80, 100]), height=st.sampled_from([40, 60, 75]), vs=st.none() | st.sampled_from([5, 10, 12]), vo=st.none() | st.sampled_from([0, 10, 15]), hs=st.sampled_from([10, 20, 30, 40, 5]), lw=st.sampled_from([6, 8]),
        color=st.sampled_from(["red", "blue", "fg"]), fill=st.none() | st.sampled_from(["yellow", "lime"]), anchor=st.sampled_from([None, None, "c", "ne", "sw"]), offsetx=st.sampled_from([0, 0, 10]), offsety=st.sampled_from([0, 0, -5]), angle=st.sampled_from([0, 0, 0, 90, 15]),
        reset=st.none() | st.none() | st.sampled_from([1.375, 2.625]), off=st.none() | st.none() | st.tuples(st.sampled_from([0.625, 1.125, 2.375]), st.sampled_from([2.125, 3.125, 9])).map(list), labels=st.none() | st.none() | st.lists(st.sampled_from([0, 2, 4, 6, 12, 13, 30]), unique=True, max_size=3), remove=st.none() | st.none() | moments, show=st.none() | moments, created=st.sampled_from([0, 0, 1.125]),
        screen=st.sampled_from([True, True, False]), via=st.sampled_from(["class", "method"]), border=B, now=B, visible=st.none() | dyn(B),
    )
)
OFF = object()
WORDS = {0: "zero", 1: "one", 2: "two", 3: "three", 4: "four", 5: "five", 8: "eight", -2: "minus", 2.5: "half"}


def run_monitor(case):
    world = case["world"]
    scale = world["scale"]
    k = 1 if case["screen"] else 1 / scale
    level = case["level"]
    kind = case["kind"]
    labels = set()
    val = (lambda v: WORDS[v]) if kind != "num" else (lambda v: v)
    number = {w: v for v, w in WORDS.items()}
    with Scene(W, H, x0=world["x0"], x1=world["x0"] + W / scale, y0=world["y0"], background="white", mode=world["mode"], reset=world["reset"]) as scene:
        env = scene.env
        m = sim.Monitor("m", level=level, env=env, **(dict(initial_tally=val(case["initial"])) if level else {}))
        data = [(0, case["initial"])] if level else []
        start = 0
        ao = None
        alive = False
        vis = Dyn(case["visible"]) if case["visible"] else None

        def create():
            ax, ay = anchor_px(case["anchor"])
            kw = dict(linewidth=case["lw"] * k, linecolor=case["color"], width=case["width"] * k, height=case["height"] * k, horizontal_scale=case["hs"] * k, title="", angle=case["angle"])
            x, y = case["x"], case["y"]
            if case["screen"]:
                x, y = x - ax, y - ay
                if case["anchor"] is not None:
                    kw["xy_anchor"] = case["anchor"]
            else:
                x, y = x / scale + world["x0"], y / scale + world["y0"]
            kw.update(x=x, y=y, offsetx=case["offsetx"] * k, offsety=case["offsety"] * k)
            kw["vertical_scale"] = (5 if case["vs"] is None else case["vs"]) * k
            if case["vs"] is None and case["screen"]:
                del kw["vertical_scale"]
            if case["vo"] is not None:
                kw["vertical_offset"] = case["vo"] * k
            if case["fill"]:
                kw["fillcolor"] = case["fill"]
            if kind == "map":
                kw["vertical_map"] = number.__getitem__
            if case["labels"] is not None:
                kw.update(labels=[val(v) if v in WORDS else v for v in case["labels"]] if kind == "num" else case["labels"] if kind == "text" else [WORDS[v] for v in case["labels"] if v in WORDS], label_linewidth=7 * k, label_linecolor="magenta", label_color="")
            if not case["border"]:
                kw["bordercolor"] = ""
            if not case["now"]:
                kw["nowcolor"] = ""
            if not case["screen"]:
                kw["screen_coordinates"] = False
            if vis:
                kw.update(visible=vis.v1 if vis.form == "set" and case["created"] >= vis.T else vis.argument(env), arg="the arg")
            return m.animate(**kw) if case["via"] == "method" else sim.AnimateMonitor(m, **kw)

        def draw(canvas, t):
            a = math.radians(case["angle"])
            ca, sa = math.cos(a), math.sin(a)
            ax, ay = anchor_px(case["anchor"]) if case["screen"] else (0, 0)
            w, h, hs = case["width"], case["height"], case["hs"]
            ox, oy = case["offsetx"], case["offsety"]
            bx, by = case["x"] - ax, case["y"] - ay  # the anchor works as an additional offset

            def place(px, py):
                px, py = px + ox + ax, py + oy + ay
                return (bx + px * ca - py * sa, by + px * sa + py * ca)

            vs, vo = (5 if case["vs"] is None else case["vs"]), case["vo"] or 0

            def clamp_y(y):
                return max(0, min(h, y))

            def y_of(v):
                v = 0 if kind == "text" or v is OFF else v
                return clamp_y(v * vs + vo)

            frame = [place(0, 0), place(w, 0), place(w, h), place(0, h)]
            if case["fill"]:
                canvas.fill(frame, COLORS[case["fill"]])
            if case["labels"]:
                for v in case["labels"]:
                    if kind == "map" and v not in WORDS:
                        continue
                    y = v * vs + vo
                    if 0 <= y <= h:
                        canvas.stroke([place(0, y), place(w, y)], False, COLORS["magenta"], 7)
            if case["border"]:
                d, _ = distance(segments(frame, True), canvas.xx, canvas.yy)
                canvas.unknown |= d <= 3
            span = w / hs
            shift = min(0, span - (t - start))  # the panel scrolls

            def x_of(u):
                return (u - start + shift) * hs

            shown = [(u, v) for u, v in data if u <= t]
            color = canvas.color(case["color"])
            if level:
                pts = []
                for (u, v), u1 in zip(shown, [u for u, _ in shown[1:]] + [t]):
                    if x_of(u1) < 0:
                        continue
                    xa, xb = max(0, x_of(u)), x_of(u1)
                    pts += [(xa, y_of(v)), (xb, y_of(v))]
                if len(pts) >= 2:
                    canvas.stroke([place(*p) for p in pts], False, color, case["lw"])
                    d, _ = distance(segments([place(*p) for p in pts], False), canvas.xx, canvas.yy)
                    canvas.unknown |= (d <= case["lw"]) & (d > case["lw"] / 2 - 2)
                n = len({y for _, y in pts})
                if shown and x_of(shown[0][0]) < 0:  # the part that just left the panel may be drawn at the left border
                    canvas.unknown |= distance([(place(0, 0), place(0, h))], canvas.xx, canvas.yy)[0] <= case["lw"]
            else:
                pts = [(x_of(u), y_of(v)) for u, v in shown if x_of(u) >= 0]
                c = [place(*p) for p in pts]
                if case["angle"] in (0, 90):
                    canvas.dots(c, color, case["lw"])
                else:  # points are always upright squares
                    canvas.dots(c, color, case["lw"])
                n = len(set(pts))
                if any(abs(x_of(u)) < 0.01 for u, _ in shown):
                    canvas.unknown |= distance([(place(0, 0), place(0, h))], canvas.xx, canvas.yy)[0] <= case["lw"]
            if case["now"]:
                x = x_of(t)
                segs = [(place(x, 0), place(x, h))]
                d, _ = distance(segs, canvas.xx, canvas.yy)
                canvas.unknown |= d <= 3
                return n, segs
            return n, None

        events = sorted(set(world["snap"]) | {u for u, _ in case["tallies"]} | {u for u in (case["reset"], case["remove"], case["show"], case["created"], *(case["off"] or ())) if u is not None} | ({vis.T} if vis and vis.form == "set" else set()))
        if case["created"] == 0:
            ao = create()
            alive = True
        done = 0
        most = 0
        on, last = True, case["initial"]

        def add(T, v):
            if level and data and data[-1][0] == T:  # values without a duration are not part of a level monitor
                data.pop()
            data.append((T, v))

        # tallies on a frame moment take place after that frame, as the frame is scheduled earlier, or before: these are not compared
        for T in [e for e in events if 0 < e < 4] + [4.25]:
            scene.run(T)
            while done < len(scene.frames):
                t, got = scene.frames[done]
                equal(t, done, "time of frame")
                canvas = Canvas(W, H, "white")
                segs = None
                if alive and (vis is None or vis(t)):
                    n, segs = draw(canvas, t)
                    most = max(most, n)
                if not any(u == t for u, _ in case["tallies"]):
                    canvas.compare(got, f"frame at {t}")
                    if segs and case["angle"] == 0 and case["color"] != "red" and (case["screen"] or scale >= 1):
                        d, ends = distance(segs, canvas.xx, canvas.yy)
                        near = (d <= 2.5) & (ends > 3)
                        inner = near & (canvas.xx > 1) & (canvas.xx < W - 1) & (canvas.yy > 1) & (canvas.yy < H - 1)
                        if inner.any() and near.sum() == inner.sum():
                            check((abs(got[inner] - np.array([255, 0, 0])).max(axis=1) < 3).any(), f"the line at now is not visible at {t}")
                done += 1
            if T == 4.25:
                break
            for u, v in case["tallies"]:
                if u == T:
                    m.tally(val(v))
                    last = v
                    if on:
                        add(T, v)
            if case["reset"] == T:
                m.reset()
                start = T
                data[:] = [(T, last if on else OFF)] if level else []
            if case["off"] and T in case["off"] and T < 4:
                on = T == case["off"][1]
                m.monitor(on)
                labels.add("off")
                if level:
                    add(T, last if on else OFF)
            if case["created"] == T:
                ao = create()
                alive = True
            if ao is not None:
                if vis and vis.form == "set" and vis.T == T:
                    ao.visible = vis.v1
                if case["remove"] == T:
                    ao.remove()
                    alive = False
                if case["show"] == T:
                    ao.show()
                    alive = True
                equal(ao.is_removed(), not alive, f"is_removed at {T}")
            if T in world["snap"]:
                canvas = Canvas(W, H, "white")
                if alive and (vis is None or vis(T)):
                    draw(canvas, T)
                canvas.compare(scene.snapshot(), f"snapshot at {T}")
        equal(done, 5, "number of frames")
        if most >= 2 and len(case["tallies"]) >= 2:
            labels.add("nontrivial")
        if ao is not None:
            ao.remove()
            scene.run(5.25)
            Canvas(W, H, "white").compare(scene.frames[5][1], "frame after removing the animated monitor", tolerance=0)
    return list(labels | {"level" if level else "non level", kind})


# ---- titles and labels: the same as the corresponding animated texts and lines

TEXTS = ["one", "Two", "a longer text"]
COLOR = st.sampled_from(["red", "blue", "black", "fg"])
LABELS = st.one_of(st.lists(st.sampled_from([0, 1, 2, 3, 5, 9, 12]), max_size=3, unique=True), st.dictionaries(st.sampled_from(["0", "2", "3", "5", "12"]), st.sampled_from(["x", "yy", "z1"]), max_size=3), st.sampled_from([["a", 2], [2.5, "1"]]))
texts_strategy = st.fixed_dictionaries(
    dict(
        world=worlds, kind=st.sampled_from(["queue", "monitor"]), x=dyn(st.integers(30, 110)), y=dyn(st.integers(30, 90)), screen=st.sampled_from([True, True, False]), anchor=st.sampled_from([None, None] + ANCHORS),
        title=optional_dyn(st.sampled_from(TEXTS)), size=optional_dyn(st.sampled_from([10, 15, 22])), color=optional_dyn(COLOR), font=st.sampled_from([None, None, "mono", "narrow"]), visible=optional_dyn(B), keep=st.none() | st.none() | dyn(B), layer=st.sampled_from([None, 1]),
        remove=st.none() | st.none() | moments, show=st.none() | st.none() | moments, parent=st.none() | st.none() | moments,
        # queue
        direction=optional_dyn(st.sampled_from(DIRECTIONS)), dx=optional_dyn(st.sampled_from([-30, 0, 12])), dy=optional_dyn(st.sampled_from([-20, 0, 9])), trajectory=st.sampled_from([False, False, True]),
        # monitor
        width=dyn(st.sampled_from([40, 80])), height=dyn(st.sampled_from([30, 50])), vs=optional_dyn(st.sampled_from([5, 10])), vo=optional_dyn(st.sampled_from([0, 10])), angle=st.sampled_from([0, 0, 90, 30]), labels=optional_dyn(LABELS),
        lcolor=optional_dyn(COLOR), lsize=optional_dyn(st.sampled_from([9, 15])), lanchor=st.none() | dyn(st.sampled_from(["e", "sw", "c"])), lx=optional_dyn(st.sampled_from([0, -10])), ly=optional_dyn(st.sampled_from([0, 6])), lwidth=optional_dyn(st.sampled_from([1, 4])), llcolor=optional_dyn(COLOR),
    )
)
NAMES = dict(title="title", size="titlefontsize", color="titlecolor", visible="visible", keep="keep", x="x", y="y")
QUEUE_NAMES = dict(direction="direction", dx="titleoffsetx", dy="titleoffsety")
MONITOR_NAMES = dict(width="width", height="height", vs="vertical_scale", vo="vertical_offset", labels="labels", lcolor="label_color", lsize="label_fontsize", lanchor="label_anchor", lx="label_offsetx", ly="label_offsety", lwidth="label_linewidth", llcolor="label_linecolor")


def run_texts(case):
    world = case["world"]
    s = world["scale"]
    queue = case["kind"] == "queue"
    screen = case["screen"]
    anchor = case["anchor"] if screen else None
    names = {**NAMES, **(QUEUE_NAMES if queue else MONITOR_NAMES)}
    dyns = {k: Dyn(case[k]) for k in names if case[k] is not None}
    val = lambda k, t, default: dyns[k](t) if k in dyns else default
    ax, ay = anchor_px(anchor)
    args = dict(x0=world["x0"], x1=world["x0"] + W / s, y0=world["y0"], background="white", mode=world["mode"], reset=world["reset"])
    times = sorted({d.T for d in dyns.values() if d.form == "set"}.union(world["snap"], (case[k] for k in ("remove", "show", "parent") if case[k] is not None)))

    def pictures(act):
        with Scene(W, H, **args) as scene:
            at = act(scene.env)
            result = []
            for T in times + [4.25]:
                scene.run(T)
                if T == 4.25:
                    break
                at(T)
                if T in world["snap"]:
                    result.append((f"snapshot at {T}", scene.snapshot()))
            return [(f"frame at {t}", picture) for t, picture in scene.frames] + result

    def real(env):
        kw = {names[k]: d.argument(env) for k, d in dyns.items()}
        for k in ("x", "y"):
            a = ax if k == "x" else ay
            kw[k] = Dyn([dyns[k].form, dyns[k].T, dyns[k].v0 - a, dyns[k].v1 - a]).argument(env)
        if anchor is not None:
            kw["xy_anchor"] = anchor
        if case["font"]:
            kw["titlefont"] = case["font"]
        if case["layer"] is not None:
            kw["layer"] = case["layer"]
        if not screen:
            kw["screen_coordinates"] = False
        if case["parent"] is not None:
            kw["parent"] = (Parent if world["mode"] == "yieldless" else YieldParent)("parent", env=env, till=case["parent"] - 0.25 + Dyn.shift)
        if queue:
            if case["trajectory"]:
                kw["trajectory"] = sim.TrajectoryPolygon((0, 0, 10, 10))
            ao = sim.AnimateQueue(sim.Queue("the queue", env=env), arg="the arg", **kw)
        else:
            if case["font"]:
                kw["label_font"] = case["font"]
            m = sim.Monitor("the monitor", level=True, env=env)
            ao = sim.AnimateMonitor(m, arg="the arg", linecolor="", bordercolor="", nowcolor="", angle=case["angle"], **kw)

        def at(T):
            for k, d in dyns.items():
                if d.form == "set" and d.T == T:
                    setattr(ao, names[k], d.v1 - {"x": ax, "y": ay}[k] if k in ("x", "y") else d.v1)
            if case["remove"] == T:
                ao.remove()
            if case["show"] == T:
                ao.show()

        return at

    present = [True]

    def model(env):
        now = lambda t: t - Dyn.shift

        def there(t):
            if present[0] and not val("keep", t, True):
                present[0] = False
            return present[0] and val("visible", t, True)

        kw = dict(screen_coordinates=screen, font=case["font"] or "", layer=case["layer"] or 0, env=env)
        common = dict(text=lambda t: val("title", now(t), "the queue" if queue else "the monitor"), textcolor=lambda t: val("color", now(t), "fg"), fontsize=lambda t: val("size", now(t), 15), visible=lambda t: there(now(t)), text_anchor="sw")
        if queue:

            def place(t):
                d = "t" if case["trajectory"] else val("direction", t, "w").lower()
                dx, dy, a = {"e": (-25, 25, "sw"), "w": (25, 25, "se"), "n": (-25, -25, "sw"), "s": (-25, 25, "sw"), "t": (-25, 25, "sw")}[d]
                dx, dy = val("dx", t, dx), val("dy", t, dy)
                x0, y0 = (0, 0) if screen else (world["x0"], world["y0"])  # the default anchor of a queue is the lower left corner
                return dyns["x"](t) + dx + x0, dyns["y"](t) + dy + y0, a

            common.update(x=lambda t: place(now(t))[0], y=lambda t: place(now(t))[1], text_anchor=lambda t: place(now(t))[2])
            sim.AnimateText(**common, **kw)
        else:
            kw["angle"] = case["angle"]
            common.update(x=lambda t: dyns["x"](now(t)) - ax, y=lambda t: dyns["y"](now(t)) - ay)
            sim.AnimateText(**common, **kw, offsetx=ax, offsety=lambda t: ay + dyns["height"](now(t)) + val("size", now(t), 15) * 0.15)

            def shown(t, i):
                labels = val("labels", t, [])
                result = []
                for v in labels:
                    try:
                        y = float(v) * val("vs", t, 5) + val("vo", t, 0)
                    except ValueError:
                        continue
                    if 0 <= y <= dyns["height"](t):
                        result.append((str(labels[v]) if isinstance(labels, dict) else str(v), y))
                return result[i] if i < len(result) else None

            for i in range(3):
                k = {**common, **kw}
                k["visible"] = lambda t, i=i: there(now(t)) and shown(now(t), i) is not None
                text, y = (lambda t, i=i: (shown(now(t), i) or ("", 0))[0]), (lambda t, i=i: (shown(now(t), i) or ("", 0))[1])
                sim.AnimateText(**{**k, "text": text, "textcolor": lambda t: val("lcolor", now(t), "fg"), "fontsize": lambda t: val("lsize", now(t), 15), "text_anchor": lambda t: val("lanchor", now(t), "e")}, offsetx=lambda t: ax + val("lx", now(t), 0), offsety=lambda t, y=y: ay + val("ly", now(t), 0) + y(t))
                for name in ("text", "textcolor", "fontsize", "text_anchor", "font"):
                    del k[name]
                k["layer"] += 0.2
                sim.AnimateLine(spec=lambda t: (0, 0, dyns["width"](now(t)), 0), linewidth=lambda t: val("lwidth", now(t), 1), linecolor=lambda t: val("llcolor", now(t), "fg"), offsetx=ax, offsety=lambda t, y=y: ay + y(t), **k)

        def at(T):
            if case["parent"] == T:
                present[0] = False
            if case["remove"] == T:
                present[0] = False
            if case["show"] == T:
                present[0] = True

        return at

    got, expected = pictures(real), pictures(model)
    equal([w for w, _ in got], [w for w, _ in expected], "frames")
    for (what, a), (_, b) in zip(got, expected):
        wrong = abs(a - b).max(axis=2) > 3
        if wrong.any():
            y, x = np.argwhere(wrong)[0]
            fail(f"{what}: {wrong.sum()} pixels of titles and labels are wrong, e.g. at x={x} y={H - y} (screen): got {tuple(a[y, x])}, expected {tuple(b[y, x])}")
    return [case["kind"]] + (["nontrivial"] if len({b.tobytes() for _, b in expected}) >= 2 else [])


FACETS = [
    Facet("queue", queue_strategy, run_queue, quick=1000, thorough=8000),
    Facet("monitor", monitor_strategy, run_monitor, quick=1000, thorough=8000),
    Facet("texts", texts_strategy, run_texts, quick=600, thorough=6000),
]
