import math
import sys
from fractions import Fraction as Fr

from ..core import Facet, check, close, equal, fail
from ..drive import fresh, sim
from ..gen import *

PROPERTY = "C27"
RULE = "the argument is inside the range (so real interpolation), or exactly on a boundary"

num = st.one_of(st.integers(-20, 20), st.integers(-80, 80).map(lambda i: i / 4), st.floats(-1e6, 1e6, allow_nan=False))
small = st.one_of(st.integers(-6, 6), st.integers(-24, 24).map(lambda i: i / 4))


def where(draw_t, a, b):
    """a moment: below, at a, inside, at b, above"""
    kind, f, d = draw_t
    if kind == "a":
        return a
    if kind == "b":
        return b
    if kind == "in":
        return a + (b - a) * f
    if kind == "below":
        return min(a, b) - d
    return max(a, b) + d


place = st.tuples(st.sampled_from(["a", "b", "in", "in", "in", "below", "above"]), st.floats(0, 1), st.sampled_from([1e-6, 0.5, 1, 100])).map(list)


# interpolate ------------------------------------------------------------------------------------------------------
vals = st.one_of(
    st.tuples(st.just("scalar"), st.lists(st.tuples(num, num).map(list), min_size=1, max_size=1)),
    st.tuples(st.just("tuple"), st.lists(st.tuples(num, num).map(list), min_size=1, max_size=5)),
    st.tuples(st.just("list"), st.lists(st.tuples(num, num).map(list), min_size=1, max_size=5)),
    st.tuples(st.just("tuple"), st.lists(st.tuples(st.none() | num, st.none() | num).map(list), min_size=1, max_size=5)),
).map(list)
interpolates = st.fixed_dictionaries(dict(t0=num, t1=st.one_of(num, num, num, st.just("inf")), same=st.sampled_from([False] * 6 + [True]), place=place, vals=vals))


def lin(t, t0, t1, v0, v1):
    return Fr(v0) + (Fr(v1) - Fr(v0)) * (Fr(t) - Fr(t0)) / (Fr(t1) - Fr(t0))


def run_interpolate(case):
    kind, pairs = case["vals"]
    t0 = case["t0"]
    t1 = t0 if case["same"] else (inf if case["t1"] == "inf" else case["t1"])
    t = where(case["place"], t0, t0 + 7 if t1 == inf else t1)
    if kind == "scalar":
        v0, v1 = pairs[0]
    else:
        v0, v1 = ((tuple if kind == "tuple" else list)(p[i] for p in pairs) for i in (0, 1))
    got = sim.interpolate(t, t0, t1, v0, v1)
    got_ = [got] if kind == "scalar" else list(got)
    equal(len(got_), len(pairs), "number of interpolated values")
    for g_, (a, b) in zip(got_, pairs):
        if t1 == inf:
            equal(g_, a, f"interpolate({t}, {t0}, inf, {v0}, {v1})")
            continue
        if t0 == t1:
            if t >= t0:
                equal(g_, b, f"interpolate({t}, {t0}, {t1}, {v0}, {v1})")
            continue
        lo, hi, vlo, vhi = (t0, t1, a, b) if t0 < t1 else (t1, t0, b, a)
        if t <= lo:
            equal(g_, vlo, f"interpolate({t}, {t0}, {t1}, {v0}, {v1})")
        elif t >= hi:
            equal(g_, vhi, f"interpolate({t}, {t0}, {t1}, {v0}, {v1})")
        elif a == b:
            equal(g_, a, f"interpolate({t}, {t0}, {t1}, {v0}, {v1})")
        elif a is None or b is None:
            equal(g_, None, f"interpolate({t}, {t0}, {t1}, {v0}, {v1})")
        else:
            e = lin(t, t0, t1, a, b)
            tol = Fr(1e-9) * max(1, abs(Fr(a)), abs(Fr(b))) + Fr(1e-12) * abs(Fr(b) - Fr(a)) * max(abs(Fr(t)), abs(Fr(t0))) / abs(Fr(t1) - Fr(t0))
            check(abs(Fr(g_) - e) <= tol, f"interpolate({t}, {t0}, {t1}, {v0}, {v1}): got {got}, expected {float(e)}")
    # colours, componentwise
    return [kind] + (["nontrivial"] if t1 != inf and min(t0, t1) <= t <= max(t0, t1) else [])


# interp -------------------------------------------------------------------------------------------------------------
tables = st.fixed_dictionaries(
    dict(
        steps=st.lists(st.sampled_from([0, 0.25, 1, 2, 3.5]), max_size=6), x0=small, kind=st.sampled_from(["scalar", "scalar", "tuple", "list"]), width=st.integers(1, 3),
        values=st.lists(st.lists(small, min_size=3, max_size=3), min_size=7, max_size=7), which=st.integers(0, 6), place=place, left=st.none() | st.sampled_from([99, 0, -3.5]), right=st.none() | st.sampled_from([99, 0, -3.5]),
        container=st.sampled_from(["list", "tuple"]),
    )
)


def run_interp(case):
    xp = [case["x0"]]
    for s in case["steps"]:
        xp.append(xp[-1] + s)
    n = len(xp)
    rows = [v[: case["width"]] for v in case["values"][:n]]
    fp = [r[0] for r in rows] if case["kind"] == "scalar" else [(tuple if case["kind"] == "tuple" else list)(r) for r in rows]
    if case["kind"] == "scalar":
        rows = [r[:1] for r in rows]
    i = case["which"] % n
    x = where(case["place"], xp[i], xp[min(i + 1, n - 1)])
    kwargs = {}
    if case["kind"] == "scalar":
        if case["left"] is not None:
            kwargs["left"] = case["left"]
        if case["right"] is not None:
            kwargs["right"] = case["right"]
    cont = list if case["container"] == "list" else tuple
    got = sim.interp(x, cont(xp), cont(fp), **kwargs)
    what = f"interp({x}, {xp}, {fp}, {kwargs})"
    if x < xp[0]:
        equal(got, kwargs.get("left", fp[0]), what)
        return ["left"]
    if x > xp[-1]:
        equal(got, kwargs.get("right", fp[-1]), what)
        return ["right"]
    if case["kind"] != "scalar":
        check(type(got) is type(fp[0]), what + " has another type", type(got))
    got_ = [got] if case["kind"] == "scalar" else list(got)
    equal(len(got_), len(rows[0]), what + " length")
    hits = [k for k in range(n) if xp[k] == x]
    if hits:
        check(any(all(abs(Fr(g_) - Fr(v)) <= Fr(1e-9) for g_, v in zip(got_, rows[k])) for k in hits), f"{what}: got {got}, expected one of {[rows[k] for k in hits]}")
        if len(hits) == 1:
            return ["nontrivial", "at point"]
        return ["nontrivial", "at jump"]
    k = max(k for k in range(n) if xp[k] < x)
    for c, g_ in enumerate(got_):
        e = lin(x, xp[k], xp[k + 1], rows[k][c], rows[k + 1][c])
        check(abs(Fr(g_) - e) <= Fr(1e-9), f"{what}: got {got}, expected {float(e)}")
    return ["nontrivial", "inside"]


# searchsorted, arange, linspace ---------------------------------------------------------------------------------------
spacings = st.one_of(
    st.fixed_dictionaries(dict(kind=st.just("search"), numpy=st.booleans(), a=st.lists(small, max_size=10).map(sorted), v=small, side=st.sampled_from(["left", "right", None]))),
    st.fixed_dictionaries(dict(kind=st.just("arange"), numpy=st.booleans(), start=small, stop=small, step=st.sampled_from([None, 0.25, 0.5, 1, 2, 3, -0.25, -1, -2]))),
    st.fixed_dictionaries(dict(kind=st.just("linspace"), numpy=st.booleans(), start=num, stop=num, n=st.one_of(st.none(), st.integers(0, 12)), endpoint=st.booleans())),
)


def run_spacing(case):
    module = sys.modules[sim.Environment.__module__]
    saved = module.has_numpy
    try:
        if case["numpy"]:
            check(saved(), "numpy not found")
        else:
            module.has_numpy = lambda: False  # as if numpy is not installed
        return run_spacing1(case)
    finally:
        module.has_numpy = saved


def run_spacing1(case):
    if case["kind"] == "search":
        a, v, side = case["a"], case["v"], case["side"]
        for cont in (list, tuple):
            got = int(sim.searchsorted(cont(a), v) if side is None else sim.searchsorted(cont(a), v, side))
            e = sum(1 for x in a if (x <= v if side == "right" else x < v))
            equal(got, e, f"searchsorted({a}, {v}, {side})")
        return ["nontrivial"] if v in a else ["search"]
    if case["kind"] == "arange":
        start, stop, step = case["start"], case["stop"], case["step"]
        got = [float(x) for x in (sim.arange(start, stop) if step is None else sim.arange(start, stop, step))]
        s = 1 if step is None else step
        e = []
        i = 0
        while (s > 0 and start + i * s < stop) or (s < 0 and start + i * s > stop):
            e.append(float(start + i * s))
            i += 1
        equal(got, e, f"arange({start}, {stop}, {step})")
        return ["nontrivial"] if len(e) > 1 else ["arange"]
    start, stop, n, endpoint = case["start"], case["stop"], case["n"], case["endpoint"]
    got = sim.linspace(start, stop, endpoint=endpoint) if n is None else sim.linspace(start, stop, n, endpoint)
    n = 50 if n is None else n
    what = f"linspace({start}, {stop}, {n}, {endpoint})"
    check(isinstance(got, list), what + " is not a list")
    equal(len(got), n, what + " length")
    for i, g_ in enumerate(got):
        e = Fr(start) if n == 1 else Fr(start) + (Fr(stop) - Fr(start)) * i / (n - 1 if endpoint else n)
        check(abs(Fr(g_) - e) <= Fr(1e-9) * max(1, abs(Fr(start)), abs(Fr(stop))), f"{what}[{i}]: got {g_}, expected {float(e)}")
    if n:
        equal(got[0], start, what + " start")
    return ["nontrivial"] if n > 1 and start != stop else ["linspace"]


# colours ----------------------------------------------------------------------------------------------------------------
NAMED = {"red": (255, 0, 0, 255), "green": (0, 128, 0, 255), "blue": (0, 0, 255, 255), "white": (255, 255, 255, 255), "black": (0, 0, 0, 255), "orange": (255, 165, 0, 255), "": (0, 0, 0, 0), "transparent": (0, 0, 0, 0), "50%gray": (127, 127, 127, 255)}
byte = st.integers(0, 255)
color = st.one_of(
    st.tuples(st.just("rgb"), st.lists(byte, min_size=3, max_size=3)),
    st.tuples(st.just("rgba"), st.lists(byte, min_size=4, max_size=4)),
    st.tuples(st.just("#rgb"), st.lists(byte, min_size=3, max_size=3)),
    st.tuples(st.just("#rgba"), st.lists(byte, min_size=4, max_size=4)),
    st.tuples(st.just("name"), st.sampled_from(sorted(NAMED))),
    st.tuples(st.just("Name"), st.sampled_from(sorted(NAMED))),
    st.tuples(st.just("name,a"), st.tuples(st.sampled_from(["red", "green", "blue", "orange"]), byte).map(list)),
    st.tuples(st.just("name#a"), st.tuples(st.sampled_from(["red", "green", "blue", "orange"]), byte).map(list)),
    st.tuples(st.just("fg"), st.just(0)),
    st.tuples(st.just("bg"), st.just(0)),
).map(list)
colors = st.fixed_dictionaries(dict(fg=color.filter(lambda c: c[0] not in ("fg", "bg")), bg=color.filter(lambda c: c[0] not in ("fg", "bg")), a=color, b=color, c=color, t0=small, d=st.sampled_from([0.5, 1, 4, 10]), rev=st.booleans(), place=place, tuple=st.booleans()))


def spec(c, tup):
    kind, v = c
    seq = tuple if tup else list
    if kind in ("rgb", "rgba"):
        return seq(v)
    if kind in ("#rgb", "#rgba"):
        return "#" + "".join(f"{x:02x}" if tup else f"{x:02X}" for x in v)
    if kind == "name":
        return v
    if kind == "Name":
        return v.upper()
    if kind == "name,a":
        return seq(v)
    if kind == "name#a":
        return f"{v[0]}#{v[1]:02x}"
    return kind


def value(c, fg, bg):
    kind, v = c
    if kind in ("rgb", "#rgb"):
        return tuple(v) + (255,)
    if kind in ("rgba", "#rgba"):
        return tuple(v)
    if kind in ("name", "Name"):
        return NAMED[v]
    if kind in ("name,a", "name#a"):
        return NAMED[v[0]][:3] + (v[1],)
    return fg if kind == "fg" else bg


def run_colors(case):
    fresh()
    env = sim.Environment()
    fg, bg = (value(case[k], None, None) for k in ("fg", "bg"))
    env.background_color(spec(case["bg"], True))  # this also sets the foreground_color
    env.foreground_color(spec(case["fg"], True))
    specs = [spec(case[k], case["tuple"]) for k in "abc"]
    values = [value(case[k], fg, bg) for k in "abc"]
    for s, v in zip(specs, values):
        equal(env.colorspec_to_tuple(s), v, f"colorspec_to_tuple({s!r})")
        equal(env.colorspec_to_tuple(env.colorspec_to_hex(s)), v, f"colorspec_to_tuple of hex of {s!r}")
    t0, t1 = case["t0"], case["t0"] + case["d"]
    if case["rev"]:
        t0, t1 = t1, t0
    t = where(case["place"], t0, t1)
    got = env.colorspec_to_tuple(env.colorinterpolate(t, t0, t1, specs[0], specs[1]))
    tc = max(min(t, max(t0, t1)), min(t0, t1))
    for g_, a, b in zip(got, values[0], values[1]):
        e = lin(tc, t0, t1, a, b)
        check(isinstance(g_, int) and abs(g_ - e) < Fr(1) + Fr(1e-9) and (e.denominator != 1 or abs(g_ - e) <= (1 if tc not in (t0, t1) else 0)), f"colorinterpolate({t}, {t0}, {t1}, {specs[0]}, {specs[1]}): got {got}, expected around {float(e)} for {a}-{b}")
    xp = [min(t0, t1), max(t0, t1), max(t0, t1) + 2]
    got = env.color_interp(t, xp, specs)
    for i in range(4):
        a, b, c = (v[i] for v in values)
        e = Fr(a) if t <= xp[0] else (lin(t, xp[0], xp[1], a, b) if t <= xp[1] else (lin(t, xp[1], xp[2], b, c) if t <= xp[2] else Fr(c)))
        check(isinstance(got[i], int) and abs(got[i] - e) < Fr(1) + Fr(1e-9), f"color_interp({t}, {xp}, {specs}): got {got}, expected around {float(e)}")
        if t <= xp[0] or t >= xp[2] or t == xp[1]:
            equal(got[i], int(e), f"color_interp({t}, {xp}, {specs})")
    return ["nontrivial"]


# polygons ---------------------------------------------------------------------------------------------------------------
polygons = st.fixed_dictionaries(dict(radius=st.sampled_from([0.5, 1, 10, 33.3]), n=st.integers(3, 12), angle=st.sampled_from([0, 30, 45, 90, -200, 359.5])))


def run_polygon(case):
    r, n, angle = case["radius"], case["n"], case["angle"]
    p = sim.regular_polygon(radius=r, number_of_sides=n, initial_angle=angle)
    equal(len(p), 2 * n, "regular_polygon length")
    got = sorted((round(p[i] - r, 7) + 0.0, round(p[i + 1] - r, 7) + 0.0) for i in range(0, 2 * n, 2))
    e = sorted((round(r * math.cos(math.radians(angle) + 2 * math.pi * i / n), 7) + 0.0, round(r * math.sin(math.radians(angle) + 2 * math.pi * i / n), 7) + 0.0) for i in range(n))
    for a, b in ((g_, min(e, key=lambda x: abs(x[0] - g_[0]) + abs(x[1] - g_[1]))) for g_ in got):
        check(abs(a[0] - b[0]) + abs(a[1] - b[1]) < 1e-5 * max(1, r), f"regular_polygon({r}, {n}, {angle}): {p}")
    check(len(set((round(x / r, 4), round(y / r, 4)) for x, y in got)) == n, "corners coincide")
    for i in range(n):
        d = math.hypot(p[2 * i] - p[(2 * i + 2) % (2 * n)], p[2 * i + 1] - p[(2 * i + 3) % (2 * n)])
        close(d, 2 * r * math.sin(math.pi / n), "side of polygon", rel=1e-6)
    return ["nontrivial"]


FACETS = [
    Facet("interpolate", interpolates, run_interpolate, quick=3000),
    Facet("interp", tables, run_interp, quick=3000),
    Facet("spacing", spacings, run_spacing, quick=2000),
    Facet("colors", colors, run_colors, quick=1200),
    Facet("polygon", polygons, run_polygon, quick=200),
]
