import math

from ..core import Facet, check, close, equal, fail
from ..drive import fresh, sim
from ..gen import *

PROPERTY = "C26"
RULE = "positive length, and acceleration or deceleration that takes part of the time, or more than one segment or trajectory"

co = st.integers(-40, 40).map(lambda i: i / 2)
orient = st.sampled_from([None, None, None, 30, "neg", "plus"])
kin = dict(
    vmax=st.sampled_from([None, 0.5, 1, 2, 5, 12]), f0=st.sampled_from([None, None, 0, 0, 0.25, 0.5, 1]), f1=st.sampled_from([None, None, 0, 0, 0.25, 0.5, 1]),
    acc=st.sampled_from([None, None, 0.25, 1, 3]), dec=st.sampled_from([None, None, 0.25, 1, 3]), orient=orient, t0=st.sampled_from([None, None, 0, 3.5, 20]),
)
poly = st.fixed_dictionaries(dict(kin, kind=st.just("polygon"), points=st.lists(st.tuples(co, co).map(list), min_size=2, max_size=6), same=st.sampled_from([None, None, None, 0, 1, 2]), spline=st.just(None), container=st.sampled_from(["list", "tuple"])))
spl = st.fixed_dictionaries(dict(kin, kind=st.just("polygon"), points=st.lists(st.tuples(co, co).map(list), min_size=2, max_size=5), same=st.none(), spline=st.sampled_from(["bezier", "b", "B", "catmull_rom", "C"]), res=st.sampled_from([None, 5, 20]), container=st.just("list")))
circle = st.fixed_dictionaries(dict(kin, kind=st.just("circle"), radius=st.sampled_from([0.5, 1, 7, 20]), x=st.none() | co, y=st.none() | co, angle0=st.none() | st.integers(-24, 24).map(lambda i: i * 15), angle1=st.none() | st.integers(-24, 24).map(lambda i: i * 15)))
still = st.fixed_dictionaries(dict(kind=st.just("standstill"), xy=st.tuples(co, co).map(list), duration=st.sampled_from([0.5, 1, 3, 10]), orient=st.sampled_from([None, 30, "plus", "neg"]), t0=st.sampled_from([None, None, 0, 3.5, 20])))
single = st.one_of(poly, poly, circle, still)
ts = st.lists(st.one_of(st.floats(-0.3, 1.3), st.sampled_from([0, 0.5, 1])), min_size=1, max_size=8)
base = dict(now=st.sampled_from([0, 0, 5]), ts=ts, env=st.sampled_from(["default", "other", "method"]), step=st.sampled_from([0.25, 0.5, 1, None]))
singles = st.fixed_dictionaries(dict(base, parts=st.lists(single, min_size=1, max_size=1), how=st.just("one")))
mergeds = st.fixed_dictionaries(dict(base, parts=st.lists(single, min_size=2, max_size=5), how=st.sampled_from(["add", "sum", "merged", "mergedtuple", "nested"])))
splines = st.fixed_dictionaries(dict(base, parts=st.lists(spl, min_size=1, max_size=1), how=st.just("one")))


def oriented(o, angle):
    if o is None:
        return angle
    if o == "neg":
        return -angle
    if o == "plus":
        return angle + 90
    return o


ORIENT = dict(neg=lambda a: -a, plus=lambda a: a + 90)


class Infeasible(Exception):
    pass


class Border(Exception):
    """so close to infeasible that rounding decides"""


class Kin:
    """travelled length for a trapezoidal speed profile"""

    def __init__(self, length, p):
        self.length = length
        if 0 < length < 1e-5:
            raise Border  # just rounding
        vmax = 1 if p["vmax"] is None else p["vmax"]
        v0 = vmax if p["f0"] is None else vmax * p["f0"]
        v1 = vmax if p["f1"] is None else vmax * p["f1"]
        acc, dec = p["acc"], p["dec"]
        # no acc (dec) means that the speed changes immediately at the start (end)
        need_acc = 0 if acc is None or dec is None else max(0, v1 * v1 - v0 * v0) / (2 * acc)
        need_dec = 0 if acc is None or dec is None else max(0, v0 * v0 - v1 * v1) / (2 * dec)
        for need in (need_acc, need_dec):
            if abs(need - length) < 1e-6 * max(1, length) and (need or length == 0):
                if need == 0:
                    continue
                raise Border
            if need > length:
                raise Infeasible
        # speed at the top: as high as possible
        lo, hi = (max(v0 if acc is not None else 0, v1 if dec is not None else 0)), vmax

        def used(v):
            return (0 if acc is None else (v * v - v0 * v0) / (2 * acc)) + (0 if dec is None else (v * v - v1 * v1) / (2 * dec))

        if used(hi) <= length:
            v = hi
        else:
            for _ in range(200):  # bisection
                mid = (lo + hi) / 2
                if used(mid) <= length:
                    lo = mid
                else:
                    hi = mid
            v = lo
        self.v0, self.v1, self.v, self.acc, self.dec = v0, v1, v, acc, dec
        self.ta = 0 if acc is None else (v - v0) / acc
        self.td = 0 if dec is None else (v - v1) / dec
        la = 0 if acc is None else (v + v0) / 2 * self.ta
        ld = 0 if dec is None else (v + v1) / 2 * self.td
        if v == 0:
            if length > 1e-12:
                raise Border
            self.tc = 0
        else:
            self.tc = max(0, length - la - ld) / v
        self.duration = self.ta + self.tc + self.td
        self.la, self.ld = la, ld

    def at(self, t):
        if t <= 0:
            return 0
        if t >= self.duration:
            return self.length
        if t < self.ta:
            return (self.v0 + (self.v0 + self.acc * t)) / 2 * t
        if t <= self.ta + self.tc:
            return self.la + self.v * (t - self.ta)
        back = self.duration - t  # seen from the end
        return self.length - (self.v1 + (self.v1 + self.dec * back)) / 2 * back


class Part:
    def __init__(self, p, t0):
        self.p = p
        self.kind = p["kind"]
        if self.kind == "standstill":
            self.duration = p["duration"]
            self.length = 0
        elif self.kind == "polygon":
            self.points = [tuple(x) for x in points_of(p)]
            self.cum = [0.0]
            for a, b in zip(self.points, self.points[1:]):
                self.cum.append(self.cum[-1] + math.dist(a, b))
            self.length = self.cum[-1]
        else:
            self.a0 = 0 if p["angle0"] is None else p["angle0"]
            self.a1 = 360 if p["angle1"] is None else p["angle1"]
            self.length = abs(self.a1 - self.a0) / 180 * math.pi * p["radius"]
        if self.kind != "standstill":
            self.kin = Kin(self.length, p)
            self.duration = self.kin.duration

    def len_at(self, t):
        return 0 if self.kind == "standstill" else self.kin.at(t)

    def pos(self, t):
        p = self.p
        if self.kind == "standstill":
            return tuple(p["xy"])
        s = self.kin.at(t)
        if self.kind == "circle":
            a = self.a1 if self.length == 0 else self.a0 + (self.a1 - self.a0) * s / self.length
            a = math.radians(a)
            return ((p["x"] or 0) + p["radius"] * math.cos(a), (p["y"] or 0) + p["radius"] * math.sin(a))
        for i in range(len(self.cum) - 1):
            if s <= self.cum[i + 1]:
                d = self.cum[i + 1] - self.cum[i]
                f = 0 if d == 0 else (s - self.cum[i]) / d
                a, b = self.points[i], self.points[i + 1]
                return (a[0] + (b[0] - a[0]) * f, a[1] + (b[1] - a[1]) * f)
        return self.points[-1]

    def angle(self, t):
        """None if too close to a corner"""
        p = self.p
        if self.kind == "standstill":
            return 0 if p["orient"] is None else oriented(p["orient"], 0)
        s = self.kin.at(t)
        if self.kind == "circle":
            if self.length == 0:
                return None
            return oriented(p["orient"], self.a0 + (self.a1 - self.a0) * s / self.length + (90 if self.a1 > self.a0 else -90))
        for i in range(len(self.cum) - 1):
            if self.cum[i] + 1e-6 < s < self.cum[i + 1] - 1e-6:
                a, b = self.points[i], self.points[i + 1]
                return oriented(p["orient"], math.degrees(math.atan2(b[1] - a[1], b[0] - a[0])))
        return None


def points_of(p):
    pts = [list(map(float, x)) for x in p["points"]]
    if p["same"] is not None:
        i = p["same"] % len(pts)
        pts.insert(i, list(pts[i]))  # a segment without length
    if p["spline"] is None:
        return pts
    res = 50 if p["res"] is None else p["res"]
    n = len(pts) - 1
    if p["spline"][0] in "bB":
        out = []
        for k in range(res):
            t = k / (res - 1)
            out.append([sum(math.comb(n, i) * (1 - t) ** (n - i) * t**i * pts[i][c] for i in range(n + 1)) for c in (0, 1)])
        return out
    ext = [[2 * pts[0][c] - pts[1][c] for c in (0, 1)]] + pts + [[2 * pts[-1][c] - pts[-2][c] for c in (0, 1)]]
    out = []
    for i in range(n):
        p0, p1, p2, p3 = ext[i : i + 4]
        for k in range(res):
            u = k / res
            y = 0.5 * (2 * p1[1] + (p2[1] - p0[1]) * u + (2 * p0[1] - 5 * p1[1] + 4 * p2[1] - p3[1]) * u**2 + (-p0[1] + 3 * p1[1] - 3 * p2[1] + p3[1]) * u**3)
            out.append([p1[0] + (p2[0] - p1[0]) * u, y])
    out.append(pts[-1])
    return out


def make(p, env, how):
    kw = {}
    if p.get("t0") is not None:
        kw["t0"] = p["t0"]
    if p["orient"] is not None:
        kw["orientation"] = ORIENT.get(p["orient"], p["orient"])
    if how == "other":
        kw["env"] = env
    ns = env if how == "method" else sim
    if p["kind"] == "standstill":
        return ns.TrajectoryStandstill(tuple(p["xy"]), p["duration"], **kw)
    vmax = 1 if p["vmax"] is None else p["vmax"]
    for k, v in (("vmax", p["vmax"]), ("v0", None if p["f0"] is None else vmax * p["f0"]), ("v1", None if p["f1"] is None else vmax * p["f1"]), ("acc", p["acc"]), ("dec", p["dec"])):
        if v is not None:
            kw[k] = v
    if p["kind"] == "circle":
        for k, v in (("x_center", p["x"]), ("y_center", p["y"]), ("angle0", p["angle0"]), ("angle1", p["angle1"])):
            if v is not None:
                kw[k] = v
        return ns.TrajectoryCircle(p["radius"], **kw)
    pts = [x for pt in (points_of(dict(p, spline=None))) for x in pt]
    if p["spline"] is not None:
        kw["spline"] = p["spline"]
        if p["res"] is not None:
            kw["res"] = p["res"]
    return ns.TrajectoryPolygon(pts if p["container"] == "list" else tuple(pts), **kw)


def run(case):
    fresh()
    env = sim.Environment(trace=False)
    if case["now"]:
        env.run(case["now"])
    if case["env"] == "other":
        sim.Environment(trace=False)
    parts, trajs = [], []
    for p in case["parts"]:
        try:
            parts.append(Part(p, 0))
        except Border:
            return ["border"]
        except Infeasible:
            try:
                make(p, env, case["env"])
            except ValueError:
                return ["infeasible"]
            fail("infeasible movement accepted", p)
        trajs.append(make(p, env, case["env"]))
    how = case["how"]
    t0s = [(case["now"] if p.get("t0") is None else p["t0"]) for p in case["parts"]]
    for tr, t0_, part in zip(trajs, t0s, parts):
        close(tr.t0(), t0_, "t0")
        close(tr.duration(), part.duration, "duration", rel=1e-7, abs_=1e-7)
        close(tr.length(), part.length, "length", rel=1e-7, abs_=1e-7)
    if how == "one":
        tr = trajs[0]
    elif how == "add":
        tr = trajs[0]
        for x in trajs[1:]:
            tr = tr + x
    elif how == "sum":
        tr = sum(trajs)
    elif how == "merged":
        tr = sim.TrajectoryMerged(trajs)
    elif how == "mergedtuple":
        tr = sim.TrajectoryMerged(tuple(trajs))
    else:
        tr = sim.TrajectoryMerged([trajs[0], sim.TrajectoryMerged(trajs[1:])])
    t0 = t0s[0]
    starts = [t0]
    lens = [0.0]
    for p in parts:
        starts.append(starts[-1] + p.duration)
        lens.append(lens[-1] + p.length)
    t1 = starts[-1]
    D, L = t1 - t0, lens[-1]
    tol = dict(rel=1e-6, abs_=1e-6)
    close(tr.t0(), t0, "t0", **tol)
    close(tr.t1(), t1, "t1", **tol)
    close(tr.duration(), D, "duration", **tol)
    close(tr.length(), L, "total length", **tol)
    times = [t0 + f * D for f in case["ts"]] + [t0, t1] + (starts[1:-1] if len(parts) > 1 else [])
    labels = set()

    def verify(t, what):
        # candidates: at the moment that a part ends, the next one may be used as well
        idx = [i for i in range(len(parts)) if starts[i] - 1e-7 <= t <= starts[i + 1] + 1e-7]
        if not idx:
            idx = [0] if t < t0 else [len(parts) - 1]
        got = (float(tr.x(t)), float(tr.y(t)))
        es = [parts[i].pos(t - starts[i]) for i in idx]
        slack = 1e-5 * max(1, L)
        check(any(abs(got[0] - e[0]) + abs(got[1] - e[1]) <= slack for e in es), f"position at t={t} ({what}): got {got}, expected {es}")
        close(float(tr.length(t)), lens[idx[0]] + parts[idx[0]].len_at(t - starts[idx[0]]), f"length at t={t}", rel=1e-5, abs_=1e-5)
        if len(idx) == 1 and min(abs(t - s) for s in starts) > 1e-6:
            e = parts[idx[0]].angle(t - starts[idx[0]])
            if e is not None:
                d = (float(tr.angle(t)) - e) % 360
                check(min(d, 360 - d) < 1e-3, f"angle at t={t}: got {tr.angle(t)}, expected {e}")
        if min(abs(t - t0), abs(t - t1)) > 1e-9:
            equal(bool(tr.in_trajectory(t)), t0 <= t <= t1, f"in_trajectory({t})")

    for t in times:
        verify(t, "t")
    for t in reversed(times):
        verify(t, "t again")
    if case["step"] is not None and D / case["step"] < 200:
        p = tr.rendered_polygon(case["step"])
        check(len(p) % 2 == 0 and len(p) >= 2, "rendered polygon", p)
        n = len(p) // 2 - 1
        check(abs(n - D / case["step"]) <= 1 + 1e-6, f"number of points of rendered polygon: {n + 1}, duration {D}, step {case['step']}")
        for i in range(n):
            t = t0 + i * case["step"]
            check(abs(p[2 * i] - tr.x(t)) + abs(p[2 * i + 1] - tr.y(t)) < 1e-5 * max(1, L), f"rendered polygon, point {i}")
        check(abs(p[-2] - tr.x(tr.t1())) + abs(p[-1] - tr.y(tr.t1())) < 1e-5 * max(1, L), "last point of rendered polygon")
    if L > 0 and (len(parts) > 1 or any(p.kind == "polygon" and len(p.points) > 2 or p.kind != "standstill" and (p.kin.ta or p.kin.td) for p in parts)):
        labels.add("nontrivial")
    return labels | {p.kind for p in parts} | {how}


FACETS = [
    Facet("single", singles, run, quick=2500),
    Facet("merged", mergeds, run, quick=2500),
    Facet("splines", splines, run, quick=500),
]
