"""reference statistics and reference monitors"""

import math
from fractions import Fraction

from .core import check, close, equal, fail, is_close, short

nan = float("nan")
inf = float("inf")


class Off:
    def __repr__(self):
        return "OFF"


OFF = Off()


def numeric(v):
    """the documented translation of non numeric values: the numeric value of a (str) number, otherwise 0"""
    if isinstance(v, (int, float)):
        return v
    try:
        return float(v)
    except (ValueError, TypeError):
        return 0


def mean(xw):
    s = math.fsum(w for x, w in xw)
    return math.fsum(x * w for x, w in xw) / s if s else nan


def std(xw):
    s = math.fsum(w for x, w in xw)
    if not s:
        return nan
    m = mean(xw)
    return math.sqrt(math.fsum(w * (x - m) ** 2 for x, w in xw) / s)


def percentile(xw, q, interpolation, weighted):
    """exact, for dyadic weights and integer q"""
    if not xw:
        return nan
    xs = sorted(x for x, w in xw)
    if q <= 0:
        return xs[0]
    if q >= 100:
        return xs[-1]
    if len(xw) == 1:
        return xs[0]
    q = Fraction(q) / 100
    if weighted:
        total = sum(Fraction(w) for x, w in xw)
        if not total:
            return nan
        data = sorted(xw, key=lambda v: v[0])
        cum = Fraction(0)
        for k, (x, w) in enumerate(data):
            cum += Fraction(w)
            if cum / total > q:
                return x
            if cum / total == q:
                nxt = data[k + 1][0]
                return {"linear": (x + nxt) / 2, "midpoint": (x + nxt) / 2, "lower": x, "higher": nxt}[interpolation]
        return data[-1][0]
    pos = q * (len(xs) - 1)
    k = int(pos)
    if pos == k:
        return xs[k]
    f = float(pos - k)
    i, j = xs[k], xs[k + 1]
    if interpolation == "nearest":
        if pos - k == Fraction(1, 2):
            return (i, j)  # either will do
        return i if f < 0.5 else j
    return {"linear": i + (j - i) * f, "lower": i, "higher": j, "midpoint": (i + j) / 2}[interpolation]


def matches(got, expected, rel=1e-9, abs_=1e-9):
    if isinstance(expected, tuple):
        return any(is_close(got, e, rel, abs_) for e in expected)
    return is_close(got, expected, rel, abs_)


QS = (0, 5, 10, 25, 30, 50, 60, 75, 90, 95, 99, 100)


def compare(what, m, xw, weighted, stats_only=False, level=False, qs=QS, interpolations=("linear", "lower", "higher", "midpoint"), rel=1e-9, abs_=1e-9, minmax=True):
    """compares all statistics of monitor m with those of xw, a list of (numeric value, weight).

    For level monitors, the current value may have a duration of 0. It may, but does not have to be, taken into account for minimum, maximum and percentiles.
    """
    for ex0 in (False, True):
        d = [(x, w) for x, w in xw if not ex0 or x != 0]
        t = f"{what} ex0={ex0}"
        total = math.fsum(w for x, w in d)
        if level:
            close(m.duration(ex0=ex0), total, f"duration of {t}", rel, abs_)
        else:
            equal(m.number_of_entries(ex0=ex0), len(d), f"number_of_entries of {t}")
            close(m.weight(ex0=ex0), total, f"weight of {t}", rel, abs_)
        close(m.mean(ex0=ex0), mean(d), f"mean of {t}", rel, abs_)
        scale = max([abs(x) for x, w in d if x not in (inf, -inf)] + [1])
        close(m.std(ex0=ex0), std(d), f"std of {t}", max(rel, 1e-7), max(abs_, 1e-6 * scale))
        if not minmax:
            continue
        variants = [[(x, w) for x, w in d if w != 0], d] if level else [d]
        for name, got, f in (("minimum", m.minimum(ex0=ex0), min), ("maximum", m.maximum(ex0=ex0), max)):
            exp = tuple(f([x for x, w in v], default=nan) for v in variants)
            check(matches(got, exp), f"{name} of {t}: got {got}, expected {exp}")
        if stats_only:
            continue
        for q in qs:
            for ip in interpolations if q in (25, 50, 60) else interpolations[:1]:
                exp = tuple(percentile(v, q, ip, weighted) for v in variants)
                exp = tuple(e for x in exp for e in (x if isinstance(x, tuple) else (x,)))
                got = m.percentile(q, ex0=ex0, interpolation=ip)
                check(matches(got, exp, rel, abs_), f"{q} percentile {ip} of {t}: got {got}, expected {exp}")
        exp = tuple(percentile(v, 50, "linear", weighted) for v in variants)
        check(matches(m.median(ex0=ex0), exp, rel, abs_), f"median of {t}: got {m.median(ex0=ex0)}, expected {exp}")
    zero = math.fsum(w for x, w in xw if x == 0)
    if level:
        close(m.duration_zero(), zero, f"duration_zero of {what}", rel, abs_)
    else:
        close(m.weight_zero(), zero, f"weight_zero of {what}", rel, abs_)
        equal(m.number_of_entries_zero(), sum(1 for x, w in xw if x == 0), f"number_of_entries_zero of {what}")


def canonical(tx):
    """list of (t, x) -> step function: list of (t, x) where x changes; OFF outside"""
    result = []
    last = OFF
    for i, (t, x) in enumerate(tx):
        if i + 1 < len(tx) and tx[i + 1][0] == t:
            continue
        if x is not last and (last is OFF or x is OFF or x != last):
            result.append((t, x))
            last = x
    return result


class LevelRef:
    """step function with periods in which the monitor is off"""

    def __init__(self, t, value, on=True):
        self.value = value
        self.t = t  # of the last tally
        self.t_on = t  # of the last tally, where turning on counts as a tally
        self.on = on
        self.clear(t)

    def clear(self, t):
        self.start = t
        self.seg = []
        self._set(t, self.value if self.on else OFF)

    def _set(self, t, v):
        if self.seg and self.seg[-1][0] == t:
            self.seg[-1] = (t, v)
        else:
            self.seg.append((t, v))

    def tally(self, t, v):
        self.value = v
        self.t = self.t_on = t
        if self.on:
            self._set(t, v)

    def monitor(self, t, on):
        self.on = on
        if on:
            self.t_on = t
        self._set(t, self.value if on else OFF)

    def reset(self, t, on=None):
        if on is not None:
            self.on = on
            if on:
                self.t_on = t
        self.clear(t)

    def xd(self, now):
        """list of (value, duration)"""
        result = []
        for (t, v), (t1, _) in zip(self.seg, self.seg[1:] + [(now, None)]):
            if v is not OFF:
                result.append((v, t1 - t))
        return result

    def at(self, t):
        r = OFF
        for t0, v in self.seg:
            if t0 <= t:
                r = v
        return r

    def xw(self, now):
        return [(numeric(v), d) for v, d in self.xd(now)]


def steps_of(m, off=None, force_numeric=False):
    """step function of a real level monitor, as a list of (absolute t, x)"""
    off = m.off if off is None else off
    x, t = m.xt(force_numeric=force_numeric, add_now=False)
    return canonical([(tt, OFF if xx == off else xx) for xx, tt in zip(x, t)])


def check_level(what, m, ref, now, offset=0, **kw):
    """compares a real level monitor with its reference. now is absolute (so not influenced by reset_now)"""
    check(m() == ref.value and m.get() == ref.value and m.value == ref.value, f"current value of {what}: got {m()!r}, expected {ref.value!r}")
    check(matches(m.t(), (ref.t - offset, ref.t_on - offset)), f"time of last tally of {what}: got {m.t()}, expected {ref.t - offset}")
    compare(what, m, ref.xw(now), True, level=True, **kw)
    if kw.get("stats_only"):
        return
    equal(steps_of(m), canonical(ref.seg), f"history of {what}")
    x, d = m.xduration(force_numeric=False)
    merged = {}
    for v, w in ref.xd(now):
        if w:
            merged[v] = merged.get(v, 0) + w
    got = {}
    for v, w in zip(x, d):
        if w:
            got[v] = got.get(v, 0) + w
    equal(sorted(got, key=repr), sorted(merged, key=repr), f"values in xduration of {what}")
    for v in merged:
        close(got[v], merged[v], f"duration of {v!r} in xduration of {what}")
        close(m.value_duration(v), merged[v], f"value_duration({v!r}) of {what}")
    pts = sorted({t for t, _ in ref.seg})
    pts += [(a + b) / 2 for a, b in zip(pts, pts[1:] + [now])] + [ref.start - 1]
    for t in pts:
        if t < now:
            exp = ref.at(t)
            got = m(t - offset)
            check(got == (m.off if exp is OFF else exp), f"{what} at {t - offset}: got {got!r}, expected {exp!r}")
            check(m.get(t - offset) == got, f"get of {what}")
    check(m(now - offset) == ref.value, f"{what} at now: got {m(now - offset)!r}, expected {ref.value!r}")
    equal(m.start_time(), ref.start - offset, f"start_time of {what}")
